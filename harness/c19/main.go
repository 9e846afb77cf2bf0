// C19: no markup from data, and the policy on every response.
package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/vw"
	"golang.org/x/net/html"
)

const token = "zqx"

// position is a place of the data or the pathbuilder which may hold anything.
type position struct {
	name  string
	plain string // the usual value
	form  string // how the payload is put there, with a %s
	get   bool   // the payload is in the address of the entity
	path  bool   // the payload is in the path of links
}

var positions = []position{
	{name: "text", plain: "t", form: "%s"},
	{name: "long", plain: "t", form: "%s"},
	{name: "link", plain: "t", form: "%s"}, {name: "link", plain: "t", form: "http://x/%s"},
	{name: "image", plain: "t", form: "%s"}, {name: "image", plain: "t", form: "http://x/%s"},
	{name: "refval", plain: "t", form: "%s"},
	{name: "childtext", plain: "t", form: "%s"},
	{name: "lang", plain: "en", form: "%s"}, {name: "longlang", plain: "en", form: "%s"}, {name: "childlang", plain: "en", form: "%s"},
	{name: "uri", plain: "http://x/a", form: "http://inj/uri/%s", get: true}, {name: "uri", plain: "http://x/a", form: "%s", get: true},
	{name: "alias", plain: "http://x/alias", form: "http://inj/alias/%s"}, {name: "alias", plain: "http://x/alias", form: "%s"},
	{name: "child", plain: "http://x/child", form: "http://inj/child/%s"},
	{name: "target", plain: "http://x/target", form: "http://inj/target/%s"}, {name: "target", plain: "http://x/target", form: "%s"},
	{name: "class", plain: "http://x/A", form: "http://inj/class/%s"}, {name: "pred", plain: "http://x/p", form: "%s"}, {name: "wpred", plain: "http://x/w", form: "http://inj/wpred/%s"},
	{name: "bname", plain: "B", form: "%s"}, {name: "cname", plain: "C", form: "%s"}, {name: "fname", plain: "F", form: "%s"}, {name: "cfname", plain: "F", form: "%s"},
	{name: "ftype", plain: "string", form: "%s"}, {name: "finfo", plain: "string", form: "%s"}, {name: "fid", plain: "ftext", form: "%s"}, {name: "cid", plain: "bc", form: "%s"},
	{name: "uuid", plain: "u", form: "%s"}, {name: "field", plain: "f", form: "%s"}, {name: "display", plain: "d", form: "%s"}, {name: "format", plain: "d", form: "%s"},
	{name: "bid", plain: "ba", form: "b%s", path: true}, {name: "datatype", plain: "http://x/dt", form: "%s"}, {name: "descr", plain: "d", form: "%s"},
}

func (p position) xml() bool {
	return strings.Contains(" class pred wpred bname cname fname cfname ftype fid cid bid datatype ", " "+p.name+" ")
}

type build struct {
	v      *viewer.Viewer
	bid    string
	uri    string
	pages  []string
	apis   []string
	missed []string
	docs   map[string]*html.Node
	bodies map[string]string
}

func (b *build) doc(page string) *html.Node {
	if b.docs[page] == nil {
		b.docs[page] = vw.Parse(vw.Get(b.v, page).Body)
	}
	return b.docs[page]
}

func (b *build) body(page string) string {
	if b.bodies[page] == "" {
		b.bodies[page] = vw.Get(b.v, page).Body
	}
	return b.bodies[page]
}

func make1(p position, payload string, flags viewer.RenderFlags) (*build, error) {
	val := func(name string) string {
		if name == p.name {
			return strings.ReplaceAll(p.form, "%s", payload)
		}
		for _, q := range positions {
			if q.name == name {
				return q.plain
			}
		}
		panic(name)
	}
	A, pr, w := val("class"), val("pred"), val("wpred")
	f := func(id, typ, dt string) ref.Field {
		return ref.Field{ID: id, Path: []string{A}, Datatype: dt, Type: typ}
	}
	k := "http://x/k"
	pb := ref.PB{Bundles: []ref.Bundle{
		{ID: val("bid"), Name: val("bname"), Path: []string{A}, Fields: []ref.Field{
			{ID: val("fid"), Path: []string{A}, Datatype: w, Type: val("ftype"), Name: val("fname")},
			f("flong", "text_long", k+"long"), f("flink", "link", k+"link"), f("fimage", "image", k+"image"), f("fref", "entity_reference", k+"ref"),
			{ID: "ftarget", Path: []string{A, pr, "http://x/B"}, Type: "entity_reference"},
			f("fdt", "string", val("datatype")),
		}, Children: []ref.Bundle{{ID: val("cid"), Name: val("cname"), Path: []string{A, k, "http://x/C"}, Fields: []ref.Field{{ID: "fc", Path: []string{A, k, "http://x/C"}, Datatype: w, Name: val("cfname")}}}}},
		{ID: "zz", Path: []string{"http://x/B"}},
	}}
	rpb := impl.Pathbuilder(pb)
	var extra func(b *pathbuilder.Bundle)
	extra = func(b *pathbuilder.Bundle) {
		set := func(p *pathbuilder.Path) {
			p.UUID, p.Field, p.DisplayWidget, p.FormatterWidget, p.Description, p.ShortName = val("uuid"), val("field"), val("display"), val("format"), val("descr"), val("descr")
			p.FieldTypeInformative = val("finfo")
		}
		set(&b.Path)
		for i := range b.ChildFields {
			set(&b.ChildFields[i].Path)
		}
		for _, c := range b.ChildBundles {
			extra(c)
		}
	}
	for _, b := range rpb.Bundles() {
		extra(b)
	}
	a, c := val("uri"), val("child")
	t := func(s, c string) ref.Stmt { return ref.Stmt{S: s, P: ref.Type, O: c} }
	v := func(s, p, text, lang string) ref.Stmt {
		return ref.Stmt{S: s, P: p, O: text, Lit: true, Lang: lang}
	}
	stmts := []ref.Stmt{t(a, A), v(a, w, val("text"), val("lang")), v(a, w, val("text"), ""), v(a, k+"long", val("long"), ""), v(a, k+"long", val("long"), val("longlang")),
		v(a, k+"link", val("link"), ""), v(a, k+"image", val("image"), ""), v(a, k+"ref", val("refval"), ""), {S: a, P: pr, O: val("target")}, t(val("target"), "http://x/B"),
		{S: a, P: k, O: c}, t(c, "http://x/C"), v(c, w, val("childtext"), val("childlang")), v(a, val("datatype"), "dtval", ""),
		{S: a, P: ref.SameAs, O: val("alias")}}
	vv, ld, err := vw.Load(impl.Load{PB: rpb, Same: []string{ref.SameAs}, Stmts: stmts}, flags)
	if err != nil {
		return nil, err
	}
	bid, uri := val("bid"), a
	if es := ld.Bundles[bid]; len(es) != 1 {
		return nil, fmt.Errorf("expected one entity, got %d", len(es))
	} else if string(es[0].URI) != uri {
		return nil, fmt.Errorf("the subject %q of the first statement was expected to be canonical, not %q", uri, es[0].URI)
	}
	b := &build{v: vv, bid: bid, uri: uri, docs: map[string]*html.Node{}, bodies: map[string]string{}}
	eb, eu := url.PathEscape(bid), url.QueryEscape(uri)
	b.pages = []string{"/", "/bundle/" + eb, "/entity/" + eb + "?uri=" + eu, "/bundle/zz", "/entity/zz?uri=" + url.QueryEscape(val("target")), "/pathbuilder"}
	if flags.TipsyURL != "" {
		b.pages = append(b.pages, "/tipsy")
	}
	b.apis = []string{"/api/v1", "/api/v1/bundle/" + eb, "/api/v1/entity/" + eb + "?uri=" + eu, "/api/v1/ntriples/" + eb + "?uri=" + eu, "/api/v1/turtle/" + eb + "?uri=" + eu}
	b.missed = []string{"/wisski/get?uri=" + eu, "/wisski/get?uri=x" + eu, "/bundle/x" + eb, "/entity/" + eb + "?uri=x" + eu, "/x" + eb, "/api/v1/bundle/x" + eb}
	return b, nil
}

// cmp compares a page with the page for the token.
func cmp(base, got *html.Node, p position, payload string, where string) error {
	text := func(b, g string) bool { return strings.ReplaceAll(b, token, payload) == g }
	where += "/" + base.Data
	if len(where) > 200 {
		where = where[len(where)-200:]
	}
	if base.Type != got.Type || base.Type != html.TextNode && base.Type != html.CommentNode && base.Data != got.Data {
		return fmt.Errorf("%s: became %q", where, got.Data)
	}
	switch base.Type {
	case html.TextNode, html.CommentNode:
		if base.Parent != nil && base.Parent.Data == "script" && strings.Contains(base.Data, token) {
			return cmpJSON(base.Data, got.Data, payload)
		}
		if !text(base.Data, got.Data) {
			return fmt.Errorf("text %q became %q", strings.TrimSpace(base.Data), strings.TrimSpace(got.Data))
		}
	}
	if len(base.Attr) != len(got.Attr) {
		return fmt.Errorf("%s: attributes %v became %v", where, base.Attr, got.Attr)
	}
	for i, ba := range base.Attr {
		ga := got.Attr[i]
		if ba.Key != ga.Key {
			return fmt.Errorf("%s: attributes %v became %v", where, base.Attr, got.Attr)
		}
		if ba.Key != "data-data" && text(ba.Val, ga.Val) {
			if (ba.Key == "href" || ba.Key == "src") && ba.Val != ga.Val && !safe(ga.Val) {
				return fmt.Errorf("%s: link to %q", where, ga.Val)
			}
			continue
		}
		if !strings.Contains(ba.Val, token) && ba.Key == "class" && strings.Contains(where, "code") {
			continue // highlighting compares names
		}
		var err error
		switch ba.Key {
		case "href", "src":
			err = cmpLink(ba.Val, ga.Val, p, payload)
		case "data-data":
			err = cmpXML(ba.Val, ga.Val, payload)
		default:
			err = fmt.Errorf("attribute %s=%q became %q", ba.Key, ba.Val, ga.Val)
		}
		if err != nil {
			return fmt.Errorf("%s: %v", where, err)
		}
	}
	b, g := base.FirstChild, got.FirstChild
	for b != nil && g != nil {
		if err := cmp(b, g, p, payload, where); err != nil {
			return err
		}
		b, g = b.NextSibling, g.NextSibling
	}
	if b != nil {
		return fmt.Errorf("%s: node %q disappeared", where, b.Data)
	}
	if g != nil {
		return fmt.Errorf("%s: new node %q", where, g.Data)
	}
	return nil
}

// safe reports if a browser treats a link as harmless.
func safe(href string) bool {
	s := strings.TrimLeftFunc(href, func(r rune) bool { return r <= ' ' })
	s = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(s)
	i := strings.IndexAny(s, ":/?#")
	if i < 0 || s[i] != ':' {
		return true
	}
	scheme := strings.ToLower(s[:i])
	for j, r := range scheme {
		if !(r >= 'a' && r <= 'z' || j > 0 && (r >= '0' && r <= '9' || strings.ContainsRune("+-.", r))) {
			return true // no scheme at all
		}
	}
	return scheme == "http" || scheme == "https" || scheme == "mailto"
}

// loose undoes percent-encoding where it is one.
func loose(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			var c byte
			if n, _ := fmt.Sscanf(s[i+1:i+3], "%02x", &c); n == 1 && strings.Trim(s[i+1:i+3], "0123456789abcdefABCDEF") == "" {
				b.WriteByte(c)
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func cmpLink(base, got string, p position, payload string) error {
	bad := fmt.Errorf("link %q became %q", base, got)
	if !safe(got) {
		return fmt.Errorf("link %q became the unsafe %q", base, got)
	}
	if got == "#ZgotmplZ" {
		return nil
	}
	if i := strings.Index(base, "?uri="); i >= 0 && strings.HasPrefix(base, "/") {
		gu, err := url.Parse(got)
		if err != nil {
			return err
		}
		if p.path {
			if j := strings.LastIndex(got, "?uri="); j < 0 || got[j:] != base[i:] {
				return bad
			}
			return nil
		}
		q, err := url.ParseQuery(gu.RawQuery)
		if err != nil || gu.Path != base[:i] || gu.Fragment != "" || len(q) != 1 {
			return bad
		}
		bq, _ := url.ParseQuery(base[i+1:])
		if strings.ReplaceAll(bq.Get("uri"), token, payload) != q.Get("uri") {
			return bad
		}
		return nil
	}
	if strings.ContainsRune(payload, '%') { // ambiguous
		if loose(strings.ReplaceAll(base, token, payload)) != loose(got) && loose(loose(strings.ReplaceAll(base, token, payload))) != loose(loose(got)) {
			return bad
		}
		return nil
	}
	if loose(strings.ReplaceAll(base, token, payload)) != loose(got) {
		return bad
	}
	return nil
}

func cmpJSON(base, got, payload string) error {
	var b, g any
	if err := json.Unmarshal([]byte(base), &b); err != nil {
		return fmt.Errorf("script is no json: %v", err)
	}
	if err := json.Unmarshal([]byte(got), &g); err != nil {
		return fmt.Errorf("script is no json: %v: %s", err, got)
	}
	var rec func(x any) any
	rec = func(x any) any {
		switch x := x.(type) {
		case string:
			return strings.ReplaceAll(x, token, payload)
		case []any:
			for i := range x {
				x[i] = rec(x[i])
			}
		case map[string]any:
			y := map[string]any{}
			for k := range x {
				y[strings.ReplaceAll(k, token, payload)] = rec(x[k])
			}
			return y
		}
		return x
	}
	if b = rec(b); !reflect.DeepEqual(b, g) {
		return fmt.Errorf("script data %v became %v", b, g)
	}
	return nil
}

func cmpXML(base, got, payload string) error {
	b, g := xml.NewDecoder(strings.NewReader(base)), xml.NewDecoder(strings.NewReader(got))
	read := func(d *xml.Decoder) (string, error) {
		var out strings.Builder
		for {
			t, err := d.Token()
			if err == io.EOF {
				return out.String(), nil
			}
			if err != nil {
				return "", err
			}
			switch t := t.(type) {
			case xml.StartElement:
				fmt.Fprintf(&out, "<%s %v>", t.Name.Local, t.Attr)
			case xml.EndElement:
				fmt.Fprintf(&out, "</%s>", t.Name.Local)
			case xml.CharData:
				out.Write(t)
			}
		}
	}
	bs, err := read(b)
	if err != nil {
		return err
	}
	gs, err := read(g)
	if err != nil {
		return fmt.Errorf("pathbuilder: %v", err)
	}
	if strings.ReplaceAll(bs, token, payload) != gs {
		return fmt.Errorf("pathbuilder %q became %q", bs, gs)
	}
	return nil
}

func is(res vw.Response, ct string) error {
	if got := res.Header.Get("Content-Type"); !strings.HasPrefix(got, ct) {
		return fmt.Errorf("content type %q instead of %q", got, ct)
	}
	return nil
}

func inject(p position, payload string, flags viewer.RenderFlags, base *build) error {
	b, err := make1(p, payload, flags)
	if err != nil {
		return err
	}
	policy := flags.CSPHeader()
	for i := range b.pages {
		rg := vw.Get(b.v, b.pages[i])
		if rg.Code != 200 {
			return fmt.Errorf("%s answers %d", b.pages[i], rg.Code)
		}
		if rg.Header.Get("Content-Security-Policy") != policy {
			return fmt.Errorf("%s has the policy %q", b.pages[i], rg.Header["Content-Security-Policy"])
		}
		if err := is(rg, "text/html"); err != nil {
			return fmt.Errorf("%s: %v", b.pages[i], err)
		}
		if err := cmp(base.doc(base.pages[i]), vw.Parse(rg.Body), p, payload, ""); err != nil {
			return fmt.Errorf("%s: %v", b.pages[i], err)
		}
	}
	for i, a := range b.apis {
		res := vw.Get(b.v, a)
		if res.Code != 200 {
			return fmt.Errorf("%s answers %d", a, res.Code)
		}
		if err := is(res, []string{"application/json", "application/json", "application/json", "application/n-triples", "text/turtle"}[i]); err != nil {
			return fmt.Errorf("%s: %v", a, err)
		}
		if i < 3 {
			if err := cmpJSON(base.body(base.apis[i]), res.Body, payload); err != nil {
				return fmt.Errorf("%s: %v", a, err)
			}
		}
	}
	for _, a := range b.missed {
		res := vw.Get(b.v, a)
		if res.Code == 200 {
			return fmt.Errorf("%s answers 200", a)
		}
		if ct := res.Header.Get("Content-Type"); res.Body != "" && !strings.HasPrefix(ct, "text/plain") {
			if !strings.HasPrefix(ct, "text/html") {
				return fmt.Errorf("%s answers with content type %q", a, ct)
			}
			// at most one link
			var names []string
			vw.All(vw.Parse(res.Body), func(n *html.Node) {
				if n.Type == html.ElementNode {
					names = append(names, n.Data)
					for _, at := range n.Attr {
						if at.Key != "href" || n.Data != "a" || !strings.HasPrefix(at.Val, "/") {
							names = append(names, at.Key+"="+at.Val)
						}
					}
				}
			})
			if got := strings.Join(names, " "); got != "html head body a" && got != "html head body" {
				return fmt.Errorf("%s answers with the markup %s", a, got)
			}
		}
	}
	return nil
}

func main() {
	kit.Main(kit.Spec{
		Property: "C19", Level: "model_checking",
		Rule: "every payload (all words over a markup alphabet up to a length, and a list of known injection strings) is put into every position of data and pathbuilder; every page is parsed as HTML and compared node by node with the page for a harmless word; APIs, redirects and error pages are checked likewise; the policy is computed independently for all combinations of options and compared on every route before and after loading",
	}, func(c *kit.Ctx) {
		policies(c)
		alpha := []string{"a", "<", ">", "&", "\"", "'", "`", "/", "\\", "=", " ", "-", "!", "{", "}", "(", "script", "b", ";", "\n", "#", "%", "?", ":", "é", "\u2028", "😀", "+", ","}
		var words []string
		var rec func(prefix string, n int)
		rec = func(prefix string, n int) {
			if prefix != "" {
				words = append(words, prefix)
			}
			if n == 0 {
				return
			}
			for _, s := range alpha {
				rec(prefix+s, n-1)
			}
		}
		words = append(words, `<script>alert(1)</script>`, `</script><script>alert(1)</script>`, `"><img src=x onerror=alert(1)>`, `'><svg onload=alert(1)>`, `javascript:alert(1)`, `JaVaScRiPt:alert(1)`, "java\tscript:alert(1)", " javascript:alert(1)", "\njavascript:alert(1)", "data:text/html,<script>alert(1)</script>", "vbscript:x", "&lt;b&gt;", "&#60;script&#62;", "&amp;", "<!--", "-->", "<![CDATA[", "]]>", "</title><b>", "</td></tr></table><b>", "</textarea>", "<style>*{}</style>", "<a href=javascript:x>", "\" onmouseover=\"x", "' onmouseover='x", "{{ . }}", "${x}", "<?php", "%3Cscript%3E", "\\u003cscript\\u003e", "+ADw-script+AD4-", "//evil.example/", "\\\\evil.example", "https://ok.example/?a=b&c=d#e", "mailto:a@b", "http:\\\\x", "file:///etc/passwd", "blob:x", "<plaintext>", "<base href=//x>", "<p>para</p>", "</code>", "http://x/a?x=<b>", "\"", "&quot;", "0", "<")
		rec("", kit.Pick(c, 2, 3))
		var baselines = map[string]*build{}
		for fi, flags := range []viewer.RenderFlags{{}, {ImageRender: true, PublicURL: "http://x", TipsyURL: "https://tipsy.example/"}} {
			for _, p := range positions {
				if fi == 1 && c.Deep() == false && p.name != "image" && p.name != "link" && p.name != "bname" && p.name != "fname" && p.name != "uuid" {
					continue
				}
				for wi, word := range words {
					if word == token || c.Deep() && wi > 1000 && fi == 1 {
						continue
					}
					if p.path && strings.ContainsAny(word, "/\n") { // no route to such bundles
						continue
					}
					if (p.get || p.name == "target") && strings.Contains(word, "\n") {
						continue
					}
					if p.name == "cid" && (word == "0" || word == "ba") { // names of other groups
						continue
					}
					if p.xml() && strings.TrimSpace(word) != word { // the pathbuilder reader trims
						continue
					}
					if p.name == "uri" && strings.TrimSpace(word) != word {
						continue
					}
					fi, flags, p, word := fi, flags, p, word
					c.Case(func() string { return fmt.Sprintf("%q in %s (%s), flags %d", word, p.name, p.form, fi) }, func() error {
						if p.name == "datatype" && word == "empty" {
							return kit.Skip
						}
						k := fmt.Sprint(fi, p.name, p.form)
						base := baselines[k]
						if base == nil {
							var err error
							if base, err = make1(p, token, flags); err != nil {
								return fmt.Errorf("baseline: %v", err)
							}
							baselines[k] = base
						}
						c.StateOf(k + word)
						c.Trans(len(base.pages) + len(base.apis) + len(base.missed))
						return inject(p, word, flags, base)
					})
				}
			}
		}
	})
}

// policies checks the policy header.
func policies(c *kit.Ctx) {
	publics := []struct {
		url  string
		want []string
	}{
		{"", nil}, {"http://h", []string{"http://h", "https://h"}}, {"https://h/", []string{"http://h/", "https://h/"}},
		{"http://h/sub,https://g:8080", []string{"http://h/sub", "https://h/sub", "http://g:8080", "https://g:8080"}},
		{" http://h \n https://g/ ,", []string{"http://h", "https://h", "http://g/", "https://g/"}}, {",\n", nil},
		{"https://a.example,https://b.example\nhttps://c.example", []string{"http://a.example", "https://a.example", "http://b.example", "https://b.example", "http://c.example", "https://c.example"}},
	}
	tipsies := []struct{ url, want string }{{"", ""}, {"https://t.example/x", "https://t.example/x"}, {"http://t.example", "http://t.example"}, {"ftp://t", ""}, {"javascript:x", ""}, {"t.example", ""}}
	for _, pu := range publics {
		for _, ti := range tipsies {
			for bits := 0; bits < 8; bits++ {
				for _, ready := range []bool{false, true} {
					pu, ti, bits, ready := pu, ti, bits, ready
					flags := viewer.RenderFlags{PublicURL: pu.url, TipsyURL: ti.url, StrictCSP: bits&1 > 0, HTMLRender: bits&2 > 0, ImageRender: bits&4 > 0}
					c.Case(func() string {
						return fmt.Sprintf("public %q tipsy %q strict %v html %v image %v ready %v", pu.url, ti.url, flags.StrictCSP, flags.HTMLRender, flags.ImageRender, ready)
					}, func() error {
						want := map[string][]string{"default-src": {"'none'"}, "connect-src": {"'self'"}, "script-src": {"'self'"}, "font-src": {"'self'"}, "style-src": {"'self'"}}
						if flags.HTMLRender {
							want["style-src"] = []string{"'self'", "'unsafe-inline'"}
						}
						if ti.want != "" {
							want["frame-src"] = []string{ti.want}
						}
						media := []string{"*"}
						if flags.StrictCSP {
							media = append([]string{}, pu.want...)
						}
						if flags.HTMLRender {
							want["media-src"] = media
						}
						if flags.HTMLRender || flags.ImageRender {
							want["img-src"] = media
						}
						b, err := make1(positions[0], "plain", flags)
						if err != nil {
							return err
						}
						routes := append(append(append([]string{}, b.pages...), b.apis...), b.missed...)
						routes = append(routes, "/tipsy", "/about", "/perf", "/favicon.ico", "/assets/", "/assets/nope.js", "/nope", "/wisski/get", "/wisski/navigate/1/view", "/api/v1/progress", "/api/v1/perf", "/entity/ba", "//", "/bundle/../x", "/bundle/ba?limit=1&skip=0", "/bundle/ba?skip=99")
						v := b.v
						if !ready {
							v = viewer.NewViewer(io.Discard)
							v.RenderFlags = flags
						}
						for _, r := range routes {
							for _, method := range []string{"GET", "POST", "HEAD"} {
								res := do(v, method, r)
								got := map[string][]string{}
								hs := res.Header["Content-Security-Policy"]
								if len(hs) != 1 {
									return fmt.Errorf("%s %s has %d policies", method, r, len(hs))
								}
								for _, d := range strings.Split(hs[0], ";") {
									f := strings.Fields(d)
									if len(f) == 0 {
										continue
									}
									if _, ok := got[f[0]]; ok {
										return fmt.Errorf("directive %s twice in %q", f[0], hs[0])
									}
									got[f[0]] = f[1:]
								}
								if a, b := render(want), render(got); a != b {
									return fmt.Errorf("%s %s (answers %d): policy\n%sinstead of\n%s", method, r, res.Code, b, a)
								}
								c.Trans(1)
							}
						}
						c.StateOf(render(want) + fmt.Sprint(ready))
						return nil
					})
				}
			}
		}
	}
}

func do(h http.Handler, method, target string) vw.Response {
	u := &url.URL{Path: target}
	if i := strings.IndexByte(target, '?'); i >= 0 {
		u = &url.URL{Path: target[:i], RawQuery: target[i+1:]}
	}
	return vw.DoMethod(h, method, u)
}

func render(m map[string][]string) string {
	var out []string
	for k, vs := range m {
		set := map[string]bool{}
		for _, v := range vs {
			set[v] = true
		}
		delete(set, "'none'")
		var l []string
		for v := range set {
			l = append(l, v)
		}
		sort.Strings(l)
		out = append(out, k+" "+strings.Join(l, " ")+"\n")
	}
	sort.Strings(out)
	return strings.Join(out, "")
}

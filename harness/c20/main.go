// C20: rewriting of links in rendered values.
package main

import (
	"bytes"
	"fmt"
	"net/url"
	"strings"

	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
	"github.com/FAU-CDI/hangover/internal/zverif/vw"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// config is a configuration of public addresses with the entity pages it means.
type config struct {
	public string
	pages  []string // without scheme
}

var configs = []config{
	{"", nil},
	{"http://h", []string{"h/wisski"}},
	{"https://h/", []string{"h/wisski"}},
	{"http://h/sub/", []string{"h/sub/wisski"}},
	{"http://h:8080", []string{"h:8080/wisski"}},
	{"http://h, https://g.example/a/b ,", []string{"h/wisski", "g.example/a/b/wisski"}},
	{"https://g.example/a/b\nhttp://h/sub", []string{"g.example/a/b/wisski", "h/sub/wisski"}},
	{",", nil},
}

// rewrite says where a target leads.
func (c config) rewrite(u string) string {
	for _, p := range c.pages {
		for _, scheme := range []string{"http://", "https://"} {
			rest := strings.TrimPrefix(u, scheme+p)
			if len(rest) == len(u) || rest != "" && !strings.ContainsAny(rest[:1], "/?#") {
				continue
			}
			if _, err := url.Parse(u); err != nil {
				continue
			}
			return p[strings.IndexByte(p, '/'):] + rest
		}
	}
	return u
}

const k = "http://x/"

type site struct {
	v *viewer.Viewer
}

func load(values []string, cfg config, flags viewer.RenderFlags) (*viewer.Viewer, error) {
	A := k + "A"
	pb := ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{
		{ID: "fl", Path: []string{A}, Datatype: k + "w", Type: "text_long"},
		{ID: "fi", Path: []string{A}, Datatype: k + "i", Type: "image"},
	}}}}
	stmts := []ref.Stmt{{S: k + "a", P: ref.Type, O: A}}
	for i, v := range values {
		stmts = append(stmts, ref.Stmt{S: k + "a", P: k + "w", O: v, Lit: true, Lang: lang(i)})
	}
	flags.PublicURL = cfg.public
	v, _, err := vw.Load(impl.Load{PB: impl.Pathbuilder(pb), Stmts: stmts}, flags)
	return v, err
}

func lang(i int) string { return fmt.Sprintf("x-v%dz", i) }

// cells returns the rendered values.
func cells(v *viewer.Viewer) (map[string]*html.Node, error) {
	res := vw.Get(v, "/entity/ba?uri="+url.QueryEscape(k+"a"))
	if res.Code != 200 {
		return nil, fmt.Errorf("answers %d", res.Code)
	}
	out := map[string]*html.Node{}
	for _, td := range vw.Elements(vw.Parse(res.Body), "td") {
		if l := vw.Attr(td, "lang"); l != "" {
			if out[l] != nil {
				return nil, fmt.Errorf("value in %s shown twice", l)
			}
			out[l] = td
		}
	}
	return out, nil
}

// dump renders the children of a node, without white space around them.
func dump(nodes []*html.Node) string {
	var b bytes.Buffer
	var rec func(n *html.Node, depth int)
	rec = func(n *html.Node, depth int) {
		ind := strings.Repeat(" ", depth)
		switch n.Type {
		case html.TextNode:
			fmt.Fprintf(&b, "%stext %q\n", ind, n.Data)
		case html.CommentNode:
			fmt.Fprintf(&b, "%scomment %q\n", ind, n.Data)
		case html.ElementNode:
			fmt.Fprintf(&b, "%s<%s:%s", ind, n.Namespace, n.Data)
			for _, a := range n.Attr {
				if strings.HasPrefix(a.Val, "/") && !strings.HasPrefix(a.Val, "//") {
					a.Val = strings.TrimSuffix(norm(a.Val), "#") // rewritten targets may be escaped differently
				}
				fmt.Fprintf(&b, " %s:%s=%q", a.Namespace, a.Key, a.Val)
			}
			b.WriteString(">\n")
		default:
			fmt.Fprintf(&b, "%snode type %d %q\n", ind, n.Type, n.Data)
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			rec(c, depth+1)
		}
	}
	trimEnds(nodes)
	for _, n := range nodes {
		if n.Type == html.TextNode && n.Data == "" {
			continue
		}
		rec(n, 0)
	}
	return b.String()
}

func trimEnds(nodes []*html.Node) {
	for _, n := range nodes {
		if n.Type != html.TextNode {
			break
		}
		if n.Data = strings.TrimLeft(n.Data, " \n\t\r\f"); n.Data != "" {
			break
		}
	}
	for i := len(nodes) - 1; i >= 0; i-- {
		if nodes[i].Type != html.TextNode {
			break
		}
		if nodes[i].Data = strings.TrimRight(nodes[i].Data, " \n\t\r\f"); nodes[i].Data != "" {
			break
		}
	}
}

func children(n *html.Node) (out []*html.Node) {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		out = append(out, c)
	}
	return
}

// want parses a value and rewrites it.
func want(value string, cfg config) ([]*html.Node, int) {
	ctx := &html.Node{Type: html.ElementNode, Data: "td", DataAtom: atom.Td}
	nodes, err := html.ParseFragment(strings.NewReader(value), ctx)
	if err != nil {
		panic(err)
	}
	n := 0
	for _, node := range nodes {
		vw.All(node, func(e *html.Node) {
			if e.Type != html.ElementNode || e.Namespace != "" {
				return
			}
			key := map[string]string{"a": "href", "img": "src"}[e.Data]
			for i := range e.Attr {
				if key != "" && e.Attr[i].Key == key && e.Attr[i].Namespace == "" {
					if r := cfg.rewrite(e.Attr[i].Val); r != e.Attr[i].Val {
						e.Attr[i].Val = r
						n++
					}
				}
			}
		})
	}
	return nodes, n
}

func check(c *kit.Ctx, values []string, cfg config, flags viewer.RenderFlags) error {
	v, err := load(values, cfg, flags)
	if err != nil {
		return err
	}
	got, err := cells(v)
	if err != nil {
		return err
	}
	for i, value := range values {
		td := got[lang(i)]
		if td == nil {
			return fmt.Errorf("value %q is not shown", value)
		}
		if !flags.HTMLRender {
			spans := children(td)
			trimEnds(spans)
			if s := vw.Text(td); strings.TrimSpace(s) != strings.TrimSpace(value) || len(vw.Elements(td, "a"))+len(vw.Elements(td, "img")) > 0 {
				return fmt.Errorf("without HTML rendering %q is shown as %q", value, s)
			}
			continue
		}
		w, n := want(value, cfg)
		if n > 0 {
			c.Nontrivial()
		}
		if a, b := dump(w), dump(children(td)); a != b {
			return fmt.Errorf("value %q is rendered as\n%swant\n%s", value, b, a)
		}
		c.StateOf(cfg.public + value)
	}
	c.Trans(len(values))
	return nil
}

func main() {
	kit.Main(kit.Spec{
		Property: "C20", Level: "model_checking",
		Rule: "all fragments built from every template (links, images, other elements and attributes with links, nested and repeated, text) with every target (every scheme, host, path and rest, escaped and malformed forms) are rendered through the entity page for every public-address configuration, and the resulting tree is compared with the parsed value in which exactly the targets below the entity pages were replaced by an independent rule; likewise image fields",
	}, func(c *kit.Ctx) {
		var targets []string
		schemes := []string{"http://", "https://", "//", "HTTP://", "ftp://", "", "http:", "javascript:", " http://"}
		hosts := []string{"h", "h:8080", "g.example/a/b", "h/sub", "g.example", "H", "h.evil.example", "u@h", "hh"}
		rests := []string{"", "/", "/wisski", "/wisski/", "/wisski/navigate/1/view", "/wisski?x=1&y=%20#frag", "/wisski#f", "/wisskifoo", "/wisski.html", "/wiss", "/other/wisski", "/WISSKI/x", "/wisski/a%2Fb", "/wisski/ä b", "/wisski/a%zz", "/wisski/?q=<>\"'", "/wisski/../x", "/wisski//x", "/wisski/;a=b", "/wisski/@x:y", "/wisski/a:b", "//wisski/x", "/wisski?", "/wisski#", "/wisski/x y?z w", "/wisski/[x]", "/sub/wisski/1", "/wisski/%", "/wisski/x?u=http://h/wisski/y"}
		if c.Deep() {
			for _, a := range []string{"/", "?", "#", "%20", "%", "a", "&", "é", "+", "[", " "} {
				for _, b := range []string{"/", "?", "#", "%41", "b", "&amp;", "=", "'", "\"", ":"} {
					rests = append(rests, "/wisski"+a+b, "/wisski/"+a+b)
				}
			}
		}
		for _, s := range schemes {
			for _, h := range hosts {
				for _, r := range rests {
					targets = append(targets, s+h+r)
				}
			}
		}
		targets = append(targets, "", "#", "/wisski/1", "wisski/1", "mailto:a@h", "data:,x", "h/wisski", "\thttp://h/wisski", "http://h/wisski/\u00a0", "http://h\\wisski")
		templates := []string{
			`<a href="%s">x</a>`, `<img src="%s">`, `<p>t <a class="c" href="%s" title="%s">x <b>y</b></a> <img alt="%s" src="%s"></p>`,
			`%t`, `<p title="%s" data-href="%s">%t</p>`, `<img href="%s"><a src="%s">z</a>`, `<iframe src="%s"></iframe><video src="%s"></video><link href="%s"><area href="%s">`,
			`<div><ul><li><a href="%s">1</a></li><li><a href="/x">2</a></li></ul></div>`, `<img srcset="%s" src="/y"><a HREF='%s' x>q</a>`,
			`<a href="%s"><img src="%s"></a>`, `<svg><a href="%s">s</a></svg>`, `c<!-- <a href="%s"> -->c`, `<blockquote cite="%s">%t</blockquote><form action="%s"></form>`, `<a name="a">n</a><a href="%s">m</a>text &lt;a href="%s"&gt;`,
		}
		const per = 60
		for ci, cfg := range configs {
			for ti, tpl := range templates {
				for i := 0; i < len(targets); i += per {
					part := targets[i:ref.Min(i+per, len(targets))]
					for _, render := range []bool{true, false} {
						if !render && ti > 2 && !c.Deep() {
							continue
						}
						ci, ti, cfg, tpl, render := ci, ti, cfg, tpl, render
						c.Case(func() string {
							return fmt.Sprintf("config %d %q, template %d %s, targets %q, render %v", ci, cfg.public, ti, tpl, part, render)
						}, func() error {
							var values []string
							for _, t := range part {
								if ti == 10 {
									if cfg.rewrite(t) != t {
										continue // links of drawings are not claimed either way
									}
								}
								e := html.EscapeString(t)
								values = append(values, strings.NewReplacer("%s", e, "%t", e).Replace(tpl))
							}
							if len(values) == 0 {
								return kit.Skip
							}
							return check(c, values, cfg, viewer.RenderFlags{HTMLRender: render})
						})
					}
				}
			}
			structures(c, cfg)
			images(c, cfg, targets)
		}
	})
}

// structures renders small trees.
func structures(c *kit.Ctx, cfg config) {
	target := "http://h/wisski/1"
	atoms := []string{"t", "&amp;", `<br>`, `<img src="` + target + `">`, `<img src="/o">`, `c<!--c-->`, " ", "&nbsp;", "é", `<input value="` + target + `">`}
	wraps := []string{`<a href="` + target + `">|</a>`, `<b class="x">|</b>`, `<p>|</p>`, `<ul><li>|</li></ul>`, `<span style="color: red">|</span>`, `<pre>|</pre>`, `<em id='i'>|</em>`}
	level := atoms
	var words []string
	words = append(words, level...)
	for d := 0; d < kit.Pick(c, 2, 3); d++ {
		var next []string
		for i, a := range level {
			if d > 0 && i%kit.Pick(c, 7, 3) != 0 {
				continue
			}
			for _, w := range wraps {
				if strings.Contains(w, "<a ") && strings.Contains(a, "<a ") || strings.HasPrefix(w, "<p") && (strings.Contains(a, "<p") || strings.Contains(a, "<ul")) || strings.HasPrefix(w, "<b") && strings.Contains(a, "<p") {
					continue
				}
				next = append(next, strings.Replace(w, "|", a, 1))
			}
		}
		for i, a := range level {
			for j, b := range atoms {
				if d > 0 && (i+j)%5 != 0 {
					continue
				}
				next = append(next, a+b)
			}
		}
		level = next
		words = append(words, level...)
	}
	const per = 50
	for i := 0; i < len(words); i += per {
		part := words[i:ref.Min(i+per, len(words))]
		c.Case(func() string { return fmt.Sprintf("config %q, values %q", cfg.public, part) }, func() error {
			return check(c, part, cfg, viewer.RenderFlags{HTMLRender: true})
		})
	}
}

// images renders image fields.
func images(c *kit.Ctx, cfg config, targets []string) {
	for i := 0; i < len(targets); i += 40 {
		part := targets[i:ref.Min(i+40, len(targets))]
		for _, on := range []bool{false, true} {
			on := on
			c.Case(func() string { return fmt.Sprintf("config %q, image fields %q, rendered %v", cfg.public, part, on) }, func() error {
				A := k + "A"
				pb := ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{A}, Fields: []ref.Field{{ID: "fi", Path: []string{A}, Datatype: k + "i", Type: "image"}}}}}
				stmts := []ref.Stmt{{S: k + "a", P: ref.Type, O: A}}
				for j, v := range part {
					stmts = append(stmts, ref.Stmt{S: k + "a", P: k + "i", O: v, Lit: true, Lang: lang(j)})
				}
				v, _, err := vw.Load(impl.Load{PB: impl.Pathbuilder(pb), Stmts: stmts}, viewer.RenderFlags{ImageRender: on, PublicURL: cfg.public})
				if err != nil {
					return err
				}
				got, err := cells(v)
				if err != nil {
					return err
				}
				for j, t := range part {
					td := got[lang(j)]
					if td == nil {
						return fmt.Errorf("image %q is not shown", t)
					}
					imgs, as := vw.Elements(td, "img"), vw.Elements(td, "a")
					w := t
					if on {
						w = cfg.rewrite(t)
						if len(imgs) != 1 {
							return fmt.Errorf("image %q is shown by %d images", t, len(imgs))
						}
						if err := link(vw.Attr(imgs[0], "src"), w); err != nil {
							return fmt.Errorf("image %q: %v", t, err)
						}
					} else if len(imgs) != 0 {
						return fmt.Errorf("image %q is shown although images are disabled", t)
					}
					if len(as) != 1 {
						return fmt.Errorf("image %q has %d links", t, len(as))
					}
					if err := link(vw.Attr(as[0], "href"), w); err != nil {
						return fmt.Errorf("link of image %q: %v", t, err)
					}
				}
				c.Trans(len(part))
				return nil
			})
		}
	}
}

// link compares a link of a template, which normalises it or replaces dangerous ones.
func link(got, want string) error {
	if got == "#ZgotmplZ" {
		s := strings.ToLower(want)
		if i := strings.IndexByte(s, ':'); i >= 0 && !strings.Contains(s[:i], "/") && s[:i] != "http" && s[:i] != "https" && s[:i] != "mailto" {
			return nil
		}
		return fmt.Errorf("the harmless %q was replaced", want)
	}
	if strings.TrimSuffix(norm(got), "#") != strings.TrimSuffix(norm(want), "#") {
		return fmt.Errorf("leads to %q instead of %q", got, want)
	}
	return nil
}

func norm(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '%' && i+2 < len(s) && ishex(s[i+1]) && ishex(s[i+2]) {
			b.WriteString(strings.ToLower(s[i : i+3]))
			i += 2
			continue
		}
		if strings.IndexByte(" \"'<>()[]\\^`{|}\t*", c) >= 0 || c >= 0x7f || c < ' ' || c == '%' {
			fmt.Fprintf(&b, "%%%02x", c)
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

func ishex(c byte) bool { return strings.IndexByte("0123456789abcdefABCDEF", c) >= 0 }

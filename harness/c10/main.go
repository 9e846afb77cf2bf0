// C10: literals and names survive from the data file to the result unchanged.
package main

import (
	"fmt"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/zverif/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/internal/zverif/ref"
)

const ex = "http://x/"

// style writes a text as the inside of a literal.
type style func(string) string

func echar(s string) string { return ref.Escape(s) }

func uchar(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r > 0xffff {
			fmt.Fprintf(&b, `\U%08X`, r)
		} else {
			fmt.Fprintf(&b, `\u%04x`, r)
		}
	}
	return b.String()
}

// mixed uses the less usual escapes.
func mixed(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch r {
		case '"', '\\':
			b.WriteString(`\` + string(r))
		case '\'':
			b.WriteString(`\'`)
		case '\n':
			b.WriteString(`\u000A`)
		case '\r':
			b.WriteString(`\r`)
		case '\b':
			b.WriteString(`\b`)
		case '\f':
			b.WriteString(`\f`)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

type lit struct {
	subj, text, lang string
	line             string
}

var kinds = []struct{ suffix, lang string }{
	{"", ""}, {"@en", "en"}, {"@en-GB", "en-GB"}, {"@DE-at-1996", "DE-at-1996"},
	{"^^<http://www.w3.org/2001/XMLSchema#string>", ""}, {"^^<http://x/type>", ""}, {"^^<http://www.w3.org/2001/XMLSchema#integer>", ""},
	{"^^<http://www.w3.org/1999/02/22-rdf-syntax-ns#HTML>", ""},
}

func lits(text string, styles []style, graphs []string) (out []lit) {
	for _, k := range kinds {
		for _, st := range styles {
			for _, g := range graphs {
				s := fmt.Sprintf("%se%d", ex, len(out))
				out = append(out, lit{s, text, k.lang, fmt.Sprintf("<%s> <%sw> \"%s\"%s %s.", s, ex, st(text), k.suffix, g)})
			}
		}
	}
	return
}

func check(c *kit.Ctx, pb *pathbuilder.Pathbuilder, dir string, ls []lit, sep string, disk, final bool) error {
	var b strings.Builder
	for i, l := range ls {
		fmt.Fprintf(&b, "<%s> <%s> <%sA> .%s", l.subj, ref.Type, ex, sep)
		b.WriteString(l.line)
		if i < len(ls)-1 || final {
			b.WriteString(sep)
		}
	}
	load := impl.Load{PB: pb, File: impl.WriteFile(dir, "data.nq", b.String()), Mask: true}
	if disk {
		d, done := impl.MkTemp(c.Scratch())
		defer done()
		load.Dir = d
	}
	out, err := load.Run()
	if err != nil {
		return err
	}
	c.Trans(2 * len(ls))
	want := map[string]lit{}
	for _, l := range ls {
		want[l.subj] = l
	}
	es := out.Bundles["ba"]
	if len(es) != len(ls) {
		return fmt.Errorf("%d entities, expected %d", len(es), len(ls))
	}
	for _, e := range es {
		l, ok := want[string(e.URI)]
		if !ok {
			return fmt.Errorf("unknown entity %q", e.URI)
		}
		delete(want, string(e.URI))
		vs := e.Fields["f"]
		if len(vs) != 1 {
			return fmt.Errorf("line %s: %d values", l.line, len(vs))
		}
		if string(vs[0].Value) != l.text || string(vs[0].Language) != l.lang {
			return fmt.Errorf("line %s: value %q language %q, expected %q language %q", l.line, vs[0].Value, vs[0].Language, l.text, l.lang)
		}
		for _, t := range vs[0].Triples {
			if string(t.Predicate) == ex+"w" && (string(t.Datum) != l.text || string(t.Language) != l.lang) {
				return fmt.Errorf("line %s: provenance holds %q language %q", l.line, t.Datum, t.Language)
			}
		}
	}
	return nil
}

func main() {
	kit.Main(kit.Spec{
		Property: "C10", Level: "model_checking",
		Rule: "every text over a critical-character alphabet up to the length, in every kind of literal (plain, languages, datatypes), escape style, and graph position; all XML Schema datatypes with canonical, non-canonical and invalid lexical forms; all names over a critical alphabet as subject, link target and canonical name, written raw and escaped; line ends, comments, blank and very long lines. Everything goes through a data file, the index and the extraction.",
	}, func(c *kit.Ctx) {
		dir, done := impl.MkTemp(c.Scratch())
		defer done()
		pb := impl.Pathbuilder(ref.PB{Bundles: []ref.Bundle{{ID: "ba", Path: []string{ex + "A"}, Fields: []ref.Field{
			{ID: "f", Path: []string{ex + "A"}, Datatype: ex + "w"},
			{ID: "g", Path: []string{ex + "A", ex + "p", ex + "B"}},
		}}}})
		texts(c, pb, dir)
		datatypes(c, pb, dir)
		names(c, pb, dir)
		layout(c, pb, dir)
	})
}

func strs(alphabet []string, n int, f func(string)) {
	var rec func(s string, k int)
	rec = func(s string, k int) {
		f(s)
		if k == 0 {
			return
		}
		for _, a := range alphabet {
			rec(s+a, k-1)
		}
	}
	rec("", n)
}

func texts(c *kit.Ctx, pb *pathbuilder.Pathbuilder, dir string) {
	alphabet := []string{`"`, `\`, `@`, `^`, `<`, `>`, ".", "a", "\n", "\r", "\t", " ", "#", "é", "😀", "\x00", "_:", "'", "\b", "\u2028", "n", "&", "0"}
	graphs := []string{"", "<http://g/1> ", "_:g "}
	strs(alphabet, kit.Pick(c, 2, 3), func(s string) {
		c.Case(func() string { return fmt.Sprintf("text %q", s) }, func() error {
			c.StateOf(s)
			return check(c, pb, dir, lits(s, []style{echar, uchar, mixed}, graphs), "\n", false, true)
		})
	})
	critical := []string{`"`, `\`, `@`, `^^`, `<`, `>`, ".", "a"}
	strs(critical, kit.Pick(c, 4, 6), func(s string) {
		c.Case(func() string { return fmt.Sprintf("text %q", s) }, func() error {
			c.StateOf(s)
			return check(c, pb, dir, lits(s, []style{echar}, graphs[:2]), "\n", false, true)
		})
	})
	// the same through the disk storages
	for _, a := range alphabet {
		c.Case(func() string { return fmt.Sprintf("disk, texts starting with %q", a) }, func() error {
			var all []lit
			for _, b := range append(alphabet, "") {
				for _, l := range lits(a+b, []style{echar}, graphs[:1]) {
					s := fmt.Sprintf("%sd%d", ex, len(all))
					l.line = strings.Replace(l.line, "<"+l.subj+">", "<"+s+">", 1)
					l.subj = s
					all = append(all, l)
				}
			}
			return check(c, pb, dir, all, "\n", true, true)
		})
	}
}

func datatypes(c *kit.Ctx, pb *pathbuilder.Pathbuilder, dir string) {
	xsd := "http://www.w3.org/2001/XMLSchema#"
	types := []string{}
	for _, t := range strings.Fields("string boolean decimal integer double float date time dateTime dateTimeStamp gYear gMonth gDay gYearMonth gMonthDay duration yearMonthDuration dayTimeDuration byte short int long unsignedByte unsignedShort unsignedInt unsignedLong positiveInteger nonNegativeInteger negativeInteger nonPositiveInteger hexBinary base64Binary anyURI language normalizedString token NMTOKEN Name NCName") {
		types = append(types, xsd+t)
	}
	types = append(types, "http://schema.org/Integer", "http://schema.org/Boolean", "http://schema.org/Float", "http://schema.org/DateTime", "https://schema.org/Integer", "http://schema.org/Text",
		"http://schema.org/Number", "http://schema.org/Date", "xsd:integer", "schema:Integer", "http://www.opengis.net/ont/geosparql#wktLiteral", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString", "http://www.w3.org/1999/02/22-rdf-syntax-ns#XMLLiteral", "http://x/t?a=b&c#d", "http://x/t\\u00e9")
	forms := []string{"", "0", "1", "01", "+1", "-0", "-01", "1.0", "1.10", "01.50", "1e3", "1E3", "1.0E+03", ".5", "5.", "INF", "-INF", "NaN", "true", "TRUE", "True", "t", "false", "0.1", "100000000000000000000000", "9007199254740993", "9223372036854775808", "123456789.123456789123456789",
		"2020-01-02", "2020-01-02Z", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.000Z", "2020-01-02T03:04:05+00:00", "2020-01-02T03:04:05+02:00", "2020-01-02T03:04:05.120", "2020-01-02T24:00:00Z", "-0044-03-15", "12:00:00", "P1Y", "2020", "--01", " 1 ", "\t1\n", "1_000", "0x10", "abc", "AbC=", "1,5", "<b>x</b>", "POINT(1 2)"}
	for _, t := range types {
		t := t
		c.Case(func() string { return "datatype " + t }, func() error {
			var ls []lit
			for _, f := range forms {
				for _, g := range []string{"", "<http://g/1> "} {
					s := fmt.Sprintf("%st%d", ex, len(ls))
					ls = append(ls, lit{s, f, "", fmt.Sprintf("<%s> <%sw> \"%s\"^^<%s> %s.", s, ex, ref.Escape(f), t, g)})
				}
				c.StateOf(t + "|" + f)
			}
			return check(c, pb, dir, ls, "\n", false, true)
		})
	}
	// several literals that differ in type, language or spelling only stay apart
	c.Case(func() string { return "values that differ in type or language only" }, func() error {
		sfx := []string{"", "@en", "@de", "@EN", "^^<" + xsd + "integer>", "^^<" + xsd + "string>"}
		var b strings.Builder
		fmt.Fprintf(&b, "<%sa> <%s> <%sA> .\n", ex, ref.Type, ex)
		want := map[string]int{}
		for _, s := range sfx {
			for _, t := range []string{"1", "01", "1.0", "one"} {
				fmt.Fprintf(&b, "<%sa> <%sw> \"%s\"%s .\n", ex, ex, t, s)
				l := ""
				if strings.HasPrefix(s, "@") {
					l = s[1:]
				}
				want[t+"@"+l]++
			}
		}
		out, err := impl.Load{PB: pb, File: impl.WriteFile(dir, "data.nq", b.String()), Mask: true}.Run()
		if err != nil {
			return err
		}
		got := map[string]int{}
		for _, v := range out.Bundles["ba"][0].Fields["f"] {
			got[string(v.Value)+"@"+string(v.Language)]++
		}
		if fmt.Sprint(want) != fmt.Sprint(got) {
			return fmt.Errorf("expected %v, got %v", want, got)
		}
		return nil
	})
}

func names(c *kit.Ctx, pb *pathbuilder.Pathbuilder, dir string) {
	alphabet := []string{"a", "A", "%20", "%2F", "%", "#", "?", "&", "=", "é", "/", "//", ".", "..", ":", ";", ",", "'", "(", "!", "~", "@", "[", "+", "😀", "e\u0301", "$", "*", "_", "-"}
	esc := func(s string) string {
		var b strings.Builder
		for i, r := range s {
			if i%2 == 0 || r > 127 {
				b.WriteString(uchar(string(r)))
			} else {
				b.WriteRune(r)
			}
		}
		return b.String()
	}
	run := func(tails []string, disk bool) error {
		var b strings.Builder
		for i, t := range tails {
			n := ex + t
			w := func(s string) string { return s }
			if i%3 == 1 {
				w = esc
			}
			fmt.Fprintf(&b, "<%s> <%s> <%sA> .\n<%s> <%s> <%sB> <http://g> .\n", w(n), ref.Type, ex, n, ref.Type, ex)
			fmt.Fprintf(&b, "<%s> <%sp> <%s> _:g .\n<%s> <%sw> \"%s\" .\n", n, ex, w(n), w(n), ex, ref.Escape(n))
		}
		l := impl.Load{PB: pb, File: impl.WriteFile(dir, "data.nq", b.String()), Mask: true}
		if disk {
			d, done := impl.MkTemp(c.Scratch())
			defer done()
			l.Dir = d
		}
		out, err := l.Run()
		if err != nil {
			return err
		}
		c.Trans(4 * len(tails))
		want := map[string]bool{}
		for _, t := range tails {
			want[ex+t] = true
		}
		if len(out.Bundles["ba"]) != len(want) {
			return fmt.Errorf("%d entities, expected %d", len(out.Bundles["ba"]), len(want))
		}
		for _, e := range out.Bundles["ba"] {
			n := string(e.URI)
			if !want[n] {
				return fmt.Errorf("unknown entity %q", n)
			}
			delete(want, n)
			f, g := e.Fields["f"], e.Fields["g"]
			if len(f) != 1 || len(g) != 1 || string(f[0].Value) != n || string(g[0].Value) != n || string(g[0].Path[1]) != n {
				return fmt.Errorf("entity %q: fields %v %v", n, f, g)
			}
		}
		return nil
	}
	for _, a := range alphabet {
		var tails []string
		seen := map[string]bool{}
		strs(alphabet, kit.Pick(c, 1, 2), func(s string) {
			if !seen[a+s] {
				seen[a+s] = true
				tails = append(tails, a+s)
				c.StateOf("name " + a + s)
			}
		})
		c.Case(func() string { return fmt.Sprintf("names starting with %q", a) }, func() error { return run(tails, false) })
		c.Case(func() string { return fmt.Sprintf("disk, names starting with %q", a) }, func() error { return run(tails[:30], true) })
		for _, t := range tails {
			t := t
			c.Case(func() string { return fmt.Sprintf("name %q", t) }, func() error { return run([]string{t}, false) })
		}
	}
}

func layout(c *kit.Ctx, pb *pathbuilder.Pathbuilder, dir string) {
	seps := []string{"\n", "\r\n", "\n\n", "\n# comment <a> \"b\" .\n", " # trailing comment\n", "\n \t \n", "\t\n"}
	for _, n := range []int{0, 1, 4095, 4096, 4097, 65535, 65536, 65537, 200000} {
		for _, sep := range seps {
			for _, final := range []bool{true, false} {
				n, sep, final := n, sep, final
				c.Case(func() string { return fmt.Sprintf("text of %d characters, separator %q, final=%v", n, sep, final) }, func() error {
					t := strings.Repeat("x", n)
					return check(c, pb, dir, lits(t, []style{echar}, []string{"", "<http://g> "}), sep, false, final)
				})
			}
		}
	}
}

// Package rdfx holds independent strict readers for N-Triples and Turtle.
package rdfx

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Triple is a statement.
type Triple struct {
	S, P, O string
	Lit     bool
	Lang    string
	Type    string // "" for plain and xsd:string literals
}

const (
	xsd    = "http://www.w3.org/2001/XMLSchema#"
	rdfNS  = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
	TypeOf = rdfNS + "type"
)

type reader struct {
	s        string
	i        int
	turtle   bool
	base     bool
	prefixes map[string]string
}

type perr string

func (r *reader) fail(f string, a ...any) {
	end := r.i + 30
	if end > len(r.s) {
		end = len(r.s)
	}
	at := r.i
	if at > len(r.s) {
		at = len(r.s)
	}
	panic(perr(fmt.Sprintf("at byte %d (%q): ", r.i, r.s[at:end]) + fmt.Sprintf(f, a...)))
}

func (r *reader) peek() byte {
	if r.i < len(r.s) {
		return r.s[r.i]
	}
	return 0
}

func (r *reader) has(p string) bool {
	if strings.HasPrefix(r.s[r.i:], p) {
		r.i += len(p)
		return true
	}
	return false
}

func (r *reader) uchar() rune {
	n := 0
	switch r.peek() {
	case 'u':
		n = 4
	case 'U':
		n = 8
	default:
		r.fail("bad escape")
	}
	r.i++
	if r.i+n > len(r.s) {
		r.fail("short escape")
	}
	v, err := strconv.ParseUint(r.s[r.i:r.i+n], 16, 32)
	if err != nil || v > 0x10ffff || v >= 0xd800 && v < 0xe000 {
		r.fail("bad escape")
	}
	r.i += n
	return rune(v)
}

// iri reads an IRIREF.
func (r *reader) iri() string {
	if r.peek() != '<' {
		r.fail("IRI expected")
	}
	r.i++
	var b strings.Builder
	for {
		if r.i >= len(r.s) {
			r.fail("IRI not closed")
		}
		c, n := utf8.DecodeRuneInString(r.s[r.i:])
		switch {
		case c == '>':
			r.i++
			iri := b.String()
			if i := strings.IndexByte(iri, ':'); i <= 0 || strings.ContainsAny(iri[:i], "/?#") {
				r.fail("relative IRI %q", iri)
			}
			return iri
		case c == '\\':
			r.i++
			b.WriteRune(r.uchar())
		case c <= 0x20 || strings.ContainsRune("<\"{}|^`", c):
			r.fail("character %q in an IRI", c)
		case c == utf8.RuneError && n == 1:
			r.fail("invalid utf-8")
		default:
			b.WriteString(r.s[r.i : r.i+n])
			r.i += n
		}
	}
}

// str reads a quoted string.
func (r *reader) str() string {
	q := `"`
	if r.turtle {
		for _, x := range []string{`"""`, `'''`, `"`, `'`} {
			if strings.HasPrefix(r.s[r.i:], x) {
				q = x
				break
			}
		}
		if q == `"` && strings.HasPrefix(r.s[r.i:], `""`) { // empty string
			r.i += 2
			return ""
		}
	}
	if !r.has(q) {
		r.fail("string expected")
	}
	var b strings.Builder
	for {
		if r.i >= len(r.s) {
			r.fail("string not closed")
		}
		if r.has(q) {
			return b.String()
		}
		c, n := utf8.DecodeRuneInString(r.s[r.i:])
		switch {
		case c == '\\':
			r.i++
			if k := strings.IndexByte(`tbnrf"'\`, r.peek()); k >= 0 && r.i < len(r.s) {
				b.WriteByte("\t\b\n\r\f\"'\\"[k])
				r.i++
			} else {
				b.WriteRune(r.uchar())
			}
		case len(q) == 1 && (c == '\n' || c == '\r'):
			r.fail("line break in a string")
		case c == utf8.RuneError && n == 1:
			r.fail("invalid utf-8")
		default:
			b.WriteString(r.s[r.i : r.i+n])
			r.i += n
		}
	}
}

func alpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func digit(c byte) bool { return c >= '0' && c <= '9' }

func (r *reader) literal() (t Triple) {
	t.Lit = true
	t.O = r.str()
	switch {
	case r.peek() == '@':
		r.i++
		start := r.i
		for alpha(r.peek()) {
			r.i++
		}
		if r.i == start {
			r.fail("bad language")
		}
		for r.peek() == '-' {
			r.i++
			sub := r.i
			for alpha(r.peek()) || digit(r.peek()) {
				r.i++
			}
			if r.i == sub {
				r.fail("bad language")
			}
		}
		t.Lang = r.s[start:r.i]
	case r.has("^^"):
		if r.turtle {
			t.Type = r.name()
		} else {
			t.Type = r.iri()
		}
		if t.Type == xsd+"string" {
			t.Type = ""
		}
	}
	return
}

func base(c rune) bool {
	in := func(a, b rune) bool { return c >= a && c <= b }
	return in('A', 'Z') || in('a', 'z') || in(0xC0, 0xD6) || in(0xD8, 0xF6) || in(0xF8, 0x2FF) || in(0x370, 0x37D) || in(0x37F, 0x1FFF) || in(0x200C, 0x200D) ||
		in(0x2070, 0x218F) || in(0x2C00, 0x2FEF) || in(0x3001, 0xD7FF) || in(0xF900, 0xFDCF) || in(0xFDF0, 0xFFFD) || in(0x10000, 0xEFFFF)
}

func pnChars(c rune) bool {
	return base(c) || c == '_' || c == '-' || c >= '0' && c <= '9' || c == 0xB7 || c >= 0x300 && c <= 0x36F || c >= 0x203F && c <= 0x2040
}

// name reads an IRI or a prefixed name.
func (r *reader) name() string {
	if r.peek() == '<' {
		return r.iri()
	}
	prefix := r.prefix()
	ns, ok := r.prefixes[prefix]
	if !ok {
		r.fail("prefix %q is not declared", prefix)
	}
	var b strings.Builder
	b.WriteString(ns)
	first := true
	for {
		c, n := utf8.DecodeRuneInString(r.s[r.i:])
		switch {
		case n == 0:
			return b.String()
		case c == '%':
			if r.i+3 > len(r.s) {
				r.fail("bad %% in a local name")
			}
			if _, err := strconv.ParseUint(r.s[r.i+1:r.i+3], 16, 8); err != nil {
				r.fail("bad %% in a local name")
			}
			b.WriteString(r.s[r.i : r.i+3])
			r.i += 3
		case c == '\\':
			if r.i+1 >= len(r.s) || !strings.ContainsRune("_~.-!$&'()*+,;=/?#@%", rune(r.s[r.i+1])) {
				r.fail("bad escape in a local name")
			}
			b.WriteByte(r.s[r.i+1])
			r.i += 2
		case c == ':' || (base(c) || c == '_' || c >= '0' && c <= '9') || !first && pnChars(c):
			b.WriteString(r.s[r.i : r.i+n])
			r.i += n
		case c == '.' && !first:
			// only inside
			j := r.i
			for j < len(r.s) && r.s[j] == '.' {
				j++
			}
			d, m := utf8.DecodeRuneInString(r.s[j:])
			if m > 0 && (pnChars(d) || d == ':' || d == '%' || d == '\\') {
				b.WriteString(r.s[r.i:j])
				r.i = j
			} else {
				return b.String()
			}
		default:
			return b.String()
		}
		first = false
	}
}

func (r *reader) prefix() string {
	start := r.i
	for {
		c, n := utf8.DecodeRuneInString(r.s[r.i:])
		if c == ':' {
			p := r.s[start:r.i]
			r.i++
			if p != "" {
				f, _ := utf8.DecodeRuneInString(p)
				if !base(f) || strings.HasSuffix(p, ".") {
					r.fail("bad prefix %q", p)
				}
			}
			return p
		}
		if n == 0 || !pnChars(c) && c != '.' {
			r.fail("name expected")
		}
		r.i += n
	}
}

func (r *reader) ws() {
	for r.i < len(r.s) {
		switch c := r.s[r.i]; {
		case c == ' ' || c == '\t' || c == '\r' || c == '\n':
			r.i++
		case c == '#':
			for r.i < len(r.s) && r.s[r.i] != '\n' && r.s[r.i] != '\r' {
				r.i++
			}
		default:
			return
		}
	}
}

func run(s string, turtle bool, f func(r *reader) []Triple) (out []Triple, err error) {
	defer func() {
		if p := recover(); p != nil {
			e, ok := p.(perr)
			if !ok {
				panic(p)
			}
			err = fmt.Errorf("%s", string(e))
		}
	}()
	return f(&reader{s: s, turtle: turtle, prefixes: map[string]string{}}), nil
}

// NTriples reads an N-Triples document.
func NTriples(s string) ([]Triple, error) {
	return run(s, false, func(r *reader) (out []Triple) {
		blank := func() {
			for r.peek() == ' ' || r.peek() == '\t' {
				r.i++
			}
		}
		for r.i < len(r.s) {
			blank()
			if c := r.peek(); c == '#' || c == '\n' || c == '\r' || r.i >= len(r.s) {
				for r.i < len(r.s) && r.s[r.i] != '\n' && r.s[r.i] != '\r' {
					r.i++
				}
				if r.i < len(r.s) {
					r.i++
				}
				continue
			}
			s := r.iri()
			blank()
			p := r.iri()
			blank()
			var t Triple
			if r.peek() == '<' {
				t.O = r.iri()
			} else {
				t = r.literal()
			}
			t.S, t.P = s, p
			blank()
			if !r.has(".") {
				r.fail(". expected")
			}
			blank()
			if r.peek() == '#' {
				for r.i < len(r.s) && r.s[r.i] != '\n' {
					r.i++
				}
			}
			if r.i < len(r.s) && r.peek() != '\n' && r.peek() != '\r' {
				r.fail("end of line expected")
			}
			out = append(out, t)
		}
		return
	})
}

// Turtle reads a Turtle document without blank nodes, collections and base.
func Turtle(s string) ([]Triple, error) {
	return run(s, true, func(r *reader) (out []Triple) {
		verb := func() string {
			if r.peek() == 'a' && r.i+1 < len(r.s) && strings.IndexByte(" \t\r\n<\"'", r.s[r.i+1]) >= 0 {
				r.i++
				return TypeOf
			}
			return r.name()
		}
		object := func() (t Triple) {
			c := r.peek()
			switch {
			case c == '"' || c == '\'':
				return r.literal()
			case digit(c) || c == '+' || c == '-':
				start := r.i
				for digit(r.peek()) || strings.IndexByte("+-eE", r.peek()) >= 0 && r.peek() != 0 || r.peek() == '.' && r.i+1 < len(r.s) && digit(r.s[r.i+1]) {
					r.i++
				}
				return Triple{Lit: true, O: r.s[start:r.i], Type: "number"}
			case strings.HasPrefix(r.s[r.i:], "true") && !strings.HasPrefix(r.s[r.i:], "true:"):
				r.i += 4
				return Triple{Lit: true, O: "true", Type: xsd + "boolean"}
			case strings.HasPrefix(r.s[r.i:], "false") && !strings.HasPrefix(r.s[r.i:], "false:"):
				r.i += 5
				return Triple{Lit: true, O: "false", Type: xsd + "boolean"}
			}
			return Triple{O: r.name()}
		}
		for {
			r.ws()
			if r.i >= len(r.s) {
				return
			}
			at := r.has("@prefix")
			if at || len(r.s)-r.i > 6 && strings.EqualFold(r.s[r.i:r.i+6], "prefix") && strings.IndexByte(" \t\r\n", r.s[r.i+6]) >= 0 {
				if !at {
					r.i += 6
				}
				r.ws()
				p := r.prefix()
				r.ws()
				r.prefixes[p] = r.iri()
				r.ws()
				if at && !r.has(".") {
					r.fail(". expected")
				}
				continue
			}
			s := r.name()
			for {
				r.ws()
				p := verb()
				for {
					r.ws()
					t := object()
					t.S, t.P = s, p
					out = append(out, t)
					r.ws()
					if !r.has(",") {
						break
					}
				}
				semi := false
				for r.has(";") {
					semi = true
					r.ws()
				}
				if !semi || r.peek() == '.' {
					break
				}
			}
			if !r.has(".") {
				r.fail(". expected")
			}
		}
	})
}

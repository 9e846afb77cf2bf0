// C23: stream encoding.
package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"testing/iotest"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
	"github.com/FAU-CDI/hangover/pkg/sgob"
)

type pair struct {
	A int
	B string
}

type inner struct {
	L []int
	M map[string]pair
	P pair
	F float64
}

type namedSlice []pair
type namedMap map[impl.Label]namedSlice

// domain is a type with some of its values.
type domain struct {
	tp   reflect.Type
	vals []reflect.Value
}

func of(vals ...any) domain {
	d := domain{tp: reflect.TypeOf(vals[0])}
	for _, v := range vals {
		d.vals = append(d.vals, reflect.ValueOf(v))
	}
	return d
}

func id(n int64) (i impl.ID) {
	i.LoadInt(big.NewInt(n))
	return
}

func scalars() []domain {
	return []domain{
		of(0, 1, -1, math.MaxInt64, math.MinInt64),
		of("", "a", "\x00é\xff", "a\nb"),
		of(false, true),
		of(0.0, 1.5, math.Inf(-1), math.SmallestNonzeroFloat64),
		of(uint8(0), uint8(255)),
		of(id(0), id(1), id(1<<32-1)),
		of(impl.Label(""), impl.Label("http://x/")),
		of(pair{}, pair{1, ""}, pair{0, "x"}, pair{-7, "yy"}),
		of(inner{}, inner{L: []int{0, 1}, M: map[string]pair{"": {}, "k": {1, "v"}}, P: pair{2, "w"}, F: -0.5}, inner{M: map[string]pair{"z": {}}}),
		of([2]int{}, [2]int{0, 5}),
		of(uint64(0), uint64(math.MaxUint64)),
		of(int32(-5), int32(0), int32(math.MaxInt32)),
	}
}

func lists(d domain, big bool) domain {
	tp := reflect.SliceOf(d.tp)
	n := len(d.vals)
	out := domain{tp: tp, vals: []reflect.Value{reflect.Zero(tp), reflect.MakeSlice(tp, 0, 0)}}
	mk := func(idx ...int) {
		s := reflect.MakeSlice(tp, 0, 0)
		for _, i := range idx {
			s = reflect.Append(s, d.vals[i%n])
		}
		out.vals = append(out.vals, s)
	}
	mk(0)
	mk(n - 1)
	mk(1, 0)
	mk(n-1, 0, 2)
	if big {
		mk(0, 0, 0, 0, 1, 2, 3, 4, 5, 6)
		mk(2, 1)
		mk(3)
	}
	return out
}

func maps(k, d domain, big bool) domain {
	tp := reflect.MapOf(k.tp, d.tp)
	n := len(d.vals)
	out := domain{tp: tp, vals: []reflect.Value{reflect.Zero(tp), reflect.MakeMap(tp)}}
	mk := func(idx ...int) {
		m := reflect.MakeMap(tp)
		for j, i := range idx {
			if j < len(k.vals) {
				m.SetMapIndex(k.vals[j], d.vals[i%n])
			}
		}
		out.vals = append(out.vals, m)
	}
	mk(0)
	mk(n - 1)
	mk(n-1, 0)
	mk(1, n-1, 0)
	if big {
		mk(2, 2, 2, 2)
		mk(3, 1)
	}
	return out
}

// show renders a value, without distinguishing nil and empty ones.
func show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += show(v.Index(i)) + ","
		}
		return s + "]"
	case reflect.Map:
		var parts []string
		for _, k := range v.MapKeys() {
			parts = append(parts, show(k)+":"+show(v.MapIndex(k)))
		}
		return "{" + sorted(parts) + "}"
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(impl.ID{}) {
			return fmt.Sprint(v.Interface())
		}
		s := "("
		for i := 0; i < v.NumField(); i++ {
			s += show(v.Field(i)) + ";"
		}
		return s + ")"
	case reflect.Float64:
		return fmt.Sprintf("%x", math.Float64bits(v.Float()))
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	default:
		return fmt.Sprint(v.Interface())
	}
}

func sorted(s []string) string {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	out := ""
	for _, x := range s {
		out += x + ","
	}
	return out
}

func copyOf(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		out := reflect.MakeSlice(v.Type(), 0, v.Len())
		for i := 0; i < v.Len(); i++ {
			out = reflect.Append(out, copyOf(v.Index(i)))
		}
		return out
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		out := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			out.SetMapIndex(k, copyOf(v.MapIndex(k)))
		}
		return out
	}
	return v
}

// stream writes and reads a sequence of values.
func stream(c *kit.Ctx, vals []reflect.Value, dirty func(tp reflect.Type) reflect.Value, cut bool) error {
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	var want []string
	var ends []int
	for i, v := range vals {
		before := copyOf(v)
		want = append(want, show(v))
		if err := sgob.EncodeValue(enc, v); err != nil {
			return fmt.Errorf("value %d: %v", i, err)
		}
		if !reflect.DeepEqual(before.Interface(), v.Interface()) {
			return fmt.Errorf("value %d was changed by encoding it", i)
		}
		ends = append(ends, buf.Len())
	}
	raw := append([]byte{}, buf.Bytes()...)
	read := func(r io.Reader, have int) error {
		dec := gob.NewDecoder(r)
		for i, v := range vals {
			target := reflect.New(v.Type())
			if k := v.Kind(); dirty != nil && (k == reflect.Map || k == reflect.Slice) {
				target.Elem().Set(dirty(v.Type()))
			}
			err := sgob.DecodeValue(dec, target)
			if have < ends[i] {
				if err == nil {
					return fmt.Errorf("value %d was decoded as %s although the stream was cut", i, show(target.Elem()))
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("value %d: %v", i, err)
			}
			if got := show(target.Elem()); got != want[i] {
				return fmt.Errorf("value %d %s is decoded as %s", i, want[i], got)
			}
		}
		return nil
	}
	c.Trans(len(vals))
	if err := read(bytes.NewReader(raw), len(raw)); err != nil {
		return err
	}
	if err := read(iotest.OneByteReader(bytes.NewReader(raw)), len(raw)); err != nil {
		return fmt.Errorf("bytewise: %v", err)
	}
	if err := read(iotest.DataErrReader(bytes.NewReader(raw)), len(raw)); err != nil {
		return fmt.Errorf("with the end announced early: %v", err)
	}
	if !cut {
		return nil
	}
	for n := range raw {
		c.Trans(1)
		if err := read(bytes.NewReader(raw[:n]), n); err != nil {
			return fmt.Errorf("cut after %d of %d bytes: %v", n, len(raw), err)
		}
	}
	// a failing writer
	for n := 0; n < len(raw); n += 1 + len(raw)/16 {
		enc := gob.NewEncoder(&failing{n: n})
		var err error
		for _, v := range vals {
			if err == nil {
				err = sgob.EncodeValue(enc, v)
			}
		}
		if err == nil {
			return fmt.Errorf("no error although only %d of %d bytes could be written", n, len(raw))
		}
	}
	return nil
}

type failing struct{ n int }

func (f *failing) Write(b []byte) (int, error) {
	if len(b) > f.n {
		n := f.n
		f.n = 0
		return n, io.ErrShortWrite
	}
	f.n -= len(b)
	return len(b), nil
}

func main() {
	kit.Main(kit.Spec{
		Property: "C23", Level: "model_checking", GC: 200,
		Rule: "all types made of the listed scalars and structures by up to the stated number of slices and maps, with all of the listed values (missing, empty, one and several elements), are encoded alone and in sequences and decoded into fresh and filled targets; the stream is also cut after every byte, which must be an error for the value that was cut and no other",
	}, func(c *kit.Ctx) {
		ds := scalars()
		keys := []domain{ds[0], ds[1], ds[5], ds[7]}
		var all []domain
		all = append(all, ds...)
		level := ds
		for depth := 1; depth <= 3; depth++ {
			var next []domain
			for i, d := range level {
				if depth == 3 && i%kit.Pick(c, 2, 1) != 0 {
					continue
				}
				next = append(next, lists(d, c.Deep()))
				for j, k := range keys {
					if depth == 3 && (i+j)%kit.Pick(c, 2, 1) != 0 {
						continue
					}
					next = append(next, maps(k, d, c.Deep()))
				}
			}
			all = append(all, next...)
			level = next
		}
		all = append(all, statics()...)
		for ti := range all {
			ti, d := ti, all[ti]
			// a filled target: the last value
			dirty := func(tp reflect.Type) reflect.Value { return copyOf(d.vals[len(d.vals)-1]) }
			for vi := range d.vals {
				vi := vi
				c.Case(func() string { return fmt.Sprintf("%v %s", d.tp, show(d.vals[vi])) }, func() error {
					c.Nontrivial()
					c.StateOf(fmt.Sprint(d.tp, show(d.vals[vi])))
					if err := stream(c, d.vals[vi:vi+1], nil, true); err != nil {
						return err
					}
					if err := stream(c, d.vals[vi:vi+1], dirty, false); err != nil {
						return fmt.Errorf("into a filled target: %v", err)
					}
					// followed by other values of its type, and by the next type
					for vj := range d.vals {
						other := all[(ti+7)%len(all)]
						seq := []reflect.Value{d.vals[vi], d.vals[vj], other.vals[vj%len(other.vals)], d.vals[vi]}
						if err := stream(c, seq, nil, vi == 2 && vj < 4); err != nil {
							return fmt.Errorf("in a sequence with %s and %v: %v", show(d.vals[vj]), other.tp, err)
						}
					}
					return nil
				})
			}
		}
		large(c)
		c.Case(func() string { return "decoding into something which is not a pointer" }, func() error {
			var buf bytes.Buffer
			if err := sgob.Encode(gob.NewEncoder(&buf), map[string]int{"a": 1}); err != nil {
				return err
			}
			m := map[string]int{}
			if err := sgob.Decode(gob.NewDecoder(&buf), m); err == nil {
				return fmt.Errorf("no error")
			}
			return nil
		})
	})
}

// statics are types the application stores.
func statics() []domain {
	tr := igraph.Triple{Subject: "s", Predicate: "p", Object: "o", Datum: "d", Language: "en", ID: id(7), Role: 2}
	ent := wisski.Entity{
		URI: "u", Path: []impl.Label{"a", "b"}, Triples: []igraph.Triple{tr, {}},
		Fields:   map[string][]wisski.FieldValue{"f": {{Value: "v", Language: "de", Path: []impl.Label{"x"}, Triples: []igraph.Triple{tr}}, {}}, "e": {}},
		Children: map[string][]wisski.Entity{"c": {{URI: "v", Children: map[string][]wisski.Entity{"d": {{URI: "w"}}}}}, "e": nil},
	}
	return []domain{
		of(map[string][]wisski.Entity{}, map[string][]wisski.Entity{"b": {ent, {}, ent}, "": {}, "n": nil}, map[string][]wisski.Entity{"x": {{}}}),
		of(map[string]map[impl.ID]int{}, map[string]map[impl.ID]int{"b": {id(1): 0, id(2): 1}, "": {}, "n": nil}, map[string]map[impl.ID]int{"y": {id(0): -1}}),
		of(map[impl.ID][]impl.ID{}, map[impl.ID][]impl.ID{id(1): {id(2), id(3)}, id(4): {}, id(5): nil}, map[impl.ID][]impl.ID{id(9): {id(9)}}),
		of(map[impl.Label]imap.TripleID{}, map[impl.Label]imap.TripleID{"a": {Canonical: id(1), Literal: id(2)}, "": {}}, map[impl.Label]imap.TripleID{"q": {}}),
		of(namedMap{}, namedMap{"a": {{1, "x"}, {}}, "": nil}, namedMap{"z": {{}}}),
		of(namedSlice{}, namedSlice{{1, "x"}, {}}, namedSlice(nil), namedSlice{{2, "y"}, {3, ""}, {4, "z"}}),
	}
}

// large crosses the size for which space is reserved in advance.
func large(c *kit.Ctx) {
	for _, n := range []int{1000, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<17 + 1} {
		n := n
		c.Case(func() string { return fmt.Sprintf("a slice with %d elements", n) }, func() error {
			s := make([]int, n)
			for i := range s {
				s[i] = i * 7
			}
			return big3(s, []int{1, 2, 3}, func(got []int) bool { return reflect.DeepEqual(s, got) })
		})
		c.Case(func() string { return fmt.Sprintf("a map with %d elements", n) }, func() error {
			s := make(map[int]string, n)
			for i := 0; i < n; i++ {
				s[i] = fmt.Sprint(i)
			}
			return big3(s, map[int]string{-1: "x"}, func(got map[int]string) bool { return reflect.DeepEqual(s, got) })
		})
	}
}

func big3[T any](s, dirty T, ok func(T) bool) error {
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	for i := 0; i < 2; i++ {
		if err := sgob.Encode(enc, s); err != nil {
			return err
		}
	}
	dec := gob.NewDecoder(&buf)
	var fresh T
	for i, t := range []*T{&fresh, &dirty} {
		if err := sgob.Decode(dec, t); err != nil {
			return err
		}
		if !ok(*t) {
			return fmt.Errorf("decoding number %d gives something else", i)
		}
	}
	return nil
}

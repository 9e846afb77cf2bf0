// C24: internal identifiers.
package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/big"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
)

const top = 1<<32 - 1

func at(n uint64) (id impl.ID) {
	id.LoadInt(new(big.Int).SetUint64(n))
	return
}

func value(id impl.ID) uint64 { return id.Int(big.NewInt(-1)).Uint64() }

func panics(f func()) (msg any) {
	defer func() { msg = recover() }()
	f()
	return nil
}

func main() {
	kit.Main(kit.Spec{
		Property: "C24", Level: "model_checking", HangAfter: 300e9,
		Rule: "every one of the 2^32 identifiers is reached by counting (in 4096 consecutive blocks, whose ends must be the beginnings of the next), and its number, encodings, validity and order relative to its predecessor are checked; order and encodings are checked for all pairs of boundary values, encodings of sequences with all lengths of inputs and outputs; counting beyond the end must panic",
	}, func(c *kit.Ctx) {
		const block = 1 << 20
		for b := uint64(0); b < 1<<32/block; b++ {
			b := b
			c.Case(func() string { return fmt.Sprintf("counting from %#x to %#x", b*block, (b+1)*block) }, func() error {
				c.Nontrivial()
				c.Trans(block)
				c.Add("identifiers", block)
				c.State(b)
				return count(b*block, block)
			})
		}
		c.Case(func() string { return "the initial value" }, func() error {
			var zero, id impl.ID
			if zero.Valid() {
				return fmt.Errorf("is valid")
			}
			if zero != at(0) {
				return fmt.Errorf("is not 0")
			}
			id.Inc()
			if value(id) != 1 || !id.Valid() {
				return fmt.Errorf("counting leads to %v", id)
			}
			id.Reset()
			if id != zero || id.Valid() {
				return fmt.Errorf("a reset leads to %v", id)
			}
			return nil
		})
		c.Case(func() string { return "counting beyond the end" }, func() error {
			c.Nontrivial()
			for n := uint64(0); n < 300; n++ {
				id := at(top - n)
				for i := uint64(0); i < n; i++ {
					id.Inc()
				}
				if value(id) != top {
					return fmt.Errorf("counting %d from %v leads to %v", n, at(top-n), id)
				}
				if panics(func() { id.Inc() }) == nil {
					return fmt.Errorf("leads to %v", id)
				}
			}
			return nil
		})
		for n := uint64(0); n < 40; n++ {
			n := n
			c.Case(func() string { return fmt.Sprintf("number 2^32+%d", n) }, func() error {
				if panics(func() { at(1<<32 + n<<uint(n%32)) }) == nil {
					return fmt.Errorf("was accepted")
				}
				return nil
			})
		}
		vals := boundary()
		for i := range vals {
			i := i
			c.Case(func() string { return fmt.Sprintf("order of %#x and the other boundary values", vals[i]) }, func() error {
				a := at(vals[i])
				ea := impl.EncodeIDs(a)
				if value(a) != vals[i] {
					return fmt.Errorf("has number %d", value(a))
				}
				for _, v := range vals {
					b := at(v)
					want := 0
					if vals[i] < v {
						want = -1
					} else if vals[i] > v {
						want = 1
					}
					if got := a.Compare(b); got != want {
						return fmt.Errorf("compared to %#x: %d", v, got)
					}
					if got := bytes.Compare(ea, impl.EncodeIDs(b)); got != want {
						return fmt.Errorf("encoding compared to that of %#x: %d", v, got)
					}
					if (a == b) != (want == 0) {
						return fmt.Errorf("equality with %#x", v)
					}
				}
				c.Trans(len(vals))
				c.State(1<<40 + vals[i])
				return nil
			})
		}
		codecs(c, vals)
	})
}

func count(from, n uint64) error {
	id := at(from)
	if value(id) != from {
		return fmt.Errorf("number %#x leads to %v", from, id)
	}
	var prev, enc, ref [impl.IDLen]byte
	var last impl.ID
	for i := uint64(0); ; i++ {
		id.Encode(enc[:])
		var back impl.ID
		back.Decode(enc[:])
		if back != id {
			return fmt.Errorf("%#x: encoding leads to %v", from+i, back)
		}
		if id.Valid() != (from+i != 0) {
			return fmt.Errorf("%#x: validity %v", from+i, id.Valid())
		}
		if i > 0 {
			if last.Compare(id) != -1 || id.Compare(last) != 1 || id.Compare(id) != 0 || last == id {
				return fmt.Errorf("%#x: comparison with the identifier before: %d, %d", from+i, id.Compare(last), last.Compare(id))
			}
			if bytes.Compare(prev[:], enc[:]) != -1 {
				return fmt.Errorf("%#x: encoding is not after the one before", from+i)
			}
		}
		_ = ref
		if i%257 == 0 || i == n-1 {
			if v := value(id); v != from+i {
				return fmt.Errorf("%#x: number is %#x", from+i, v)
			}
		}
		if i == n || from+i == top {
			break
		}
		prev, last = enc, id
		if next := id.Inc(); next != id {
			return fmt.Errorf("%#x: counting returns %v, but leads to %v", from+i, next, id)
		}
	}
	if from+n <= top && id != at(from+n) {
		return fmt.Errorf("counting %#x from %#x leads to %v", n, from, id)
	}
	return nil
}

func boundary() (out []uint64) {
	seen := map[uint64]bool{}
	add := func(v uint64) {
		if v <= top && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	bs := []uint64{0, 1, 0x7f, 0x80, 0xfe, 0xff}
	for _, a := range bs {
		for _, b := range bs {
			for _, x := range bs {
				for _, d := range bs {
					add(a<<24 | b<<16 | x<<8 | d)
				}
			}
		}
	}
	return
}

// codecs checks the encodings of sequences.
func codecs(c *kit.Ctx, vals []uint64) {
	var few []uint64
	for i := 0; i < len(vals); i += kit.Pick(c, 81, 29) {
		few = append(few, vals[i])
	}
	few = append(few, top, 256)
	for i := range few {
		for j := range few {
			i, j := i, j
			c.Case(func() string { return fmt.Sprintf("sequences of %#x, %#x", few[i], few[j]) }, func() error {
				for _, v := range few {
					if err := sequences([]impl.ID{at(few[i]), at(few[j]), at(v)}); err != nil {
						return fmt.Errorf("and %#x: %v", v, err)
					}
					c.Trans(1)
					c.State(kit.Hash(fmt.Sprint(few[i], few[j], v)))
				}
				return nil
			})
		}
	}
}

func sequences(all []impl.ID) error {
	var marked impl.ID
	marked.LoadInt(big.NewInt(0x5a5a5a5a))
	for n := 0; n <= len(all); n++ {
		ids := all[:n]
		enc := impl.EncodeIDs(ids...)
		if len(enc) != n*impl.IDLen {
			return fmt.Errorf("%d identifiers take %d bytes", n, len(enc))
		}
		for i, id := range ids {
			e, err := impl.MarshalID(id)
			if err != nil || !bytes.Equal(e, enc[i*impl.IDLen:(i+1)*impl.IDLen]) {
				return fmt.Errorf("encoding %d of %d differs from the single one: %v", i, n, err)
			}
			if impl.DecodeID(enc, i) != id {
				return fmt.Errorf("decoding %d of %d leads to %v", i, n, impl.DecodeID(enc, i))
			}
		}
		dec := impl.DecodeIDs(enc)
		if len(dec) != n {
			return fmt.Errorf("%d identifiers are decoded as %d", n, len(dec))
		}
		for i := range dec {
			if dec[i] != ids[i] {
				return fmt.Errorf("decoding %d of %d leads to %v", i, n, dec[i])
			}
		}
		for size := 0; size <= 4*impl.IDLen; size++ {
			dst := bytes.Repeat([]byte{0xaa}, size)
			err := impl.MarshalIDs(dst, ids...)
			if (err == nil) != (size >= len(enc)) {
				return fmt.Errorf("writing %d identifiers into %d bytes: %v", n, size, err)
			}
			if err == nil && (!bytes.Equal(dst[:len(enc)], enc) || !bytes.Equal(dst[len(enc):], bytes.Repeat([]byte{0xaa}, size-len(enc)))) {
				return fmt.Errorf("writing %d identifiers into %d bytes wrote %x", n, size, dst)
			}
			src := append(append([]byte{}, enc...), bytes.Repeat([]byte{0xbb}, 4*impl.IDLen)...)[:size]
			got := []impl.ID{marked, marked, marked}
			err = impl.UnmarshalIDs(src, []*impl.ID{&got[0], &got[1], &got[2]}[:n]...)
			if (err == nil) != (size >= len(enc)) {
				return fmt.Errorf("reading %d identifiers from %d bytes: %v", n, size, err)
			}
			for i := range got {
				if err == nil && i < n && got[i] != ids[i] || i >= n && got[i] != marked {
					return fmt.Errorf("reading %d identifiers from %d bytes leads to %v", n, size, got)
				}
			}
			if n == 1 {
				id, g := marked, marked
				err := impl.UnmarshalID(&id, src)
				if (err == nil) != (size >= impl.IDLen) || err == nil && id != ids[0] {
					return fmt.Errorf("reading an identifier from %d bytes: %v %v", size, id, err)
				}
				err = g.GobDecode(src)
				if (err == nil) != (size >= impl.IDLen) || err == nil && g != ids[0] {
					return fmt.Errorf("gob decoding an identifier from %d bytes: %v %v", size, g, err)
				}
			}
			if n == 2 {
				var tid imap.TripleID
				err := tid.Unmarshal(src)
				if (err == nil) != (size >= len(enc)) {
					return fmt.Errorf("reading a pair from %d bytes: %v", size, err)
				}
				if w := (imap.TripleID{Canonical: ids[0], Literal: ids[1]}); err == nil {
					again, err := w.Marshal()
					var back imap.TripleID
					if err == nil {
						err = back.Unmarshal(again)
					}
					if err != nil || back != w {
						return fmt.Errorf("the pair %v is decoded as %v: %v", w, back, err)
					}
				}
			}
		}
	}
	// triples
	pair := func(a, b impl.ID) imap.TripleID { return imap.TripleID{Canonical: a, Literal: b} }
	for role := 0; role < 256; role++ {
		if role > 8 && role < 250 {
			continue
		}
		w := igraph.IndexTriple{Role: igraph.Role(role), Items: [3]imap.TripleID{pair(all[0], all[1]), pair(all[2], all[0]), pair(all[1], all[2])}}
		enc, err := igraph.MarshalTriple(w)
		if err != nil {
			return err
		}
		for size := 0; size <= len(enc); size++ {
			var back igraph.IndexTriple
			err := igraph.UnmarshalTriple(&back, enc[:size])
			if (err == nil) != (size == len(enc)) || err == nil && back != w {
				return fmt.Errorf("the triple %v is decoded from %d of %d bytes as %v: %v", w, size, len(enc), back, err)
			}
			if role > 1 && size < len(enc)-2 {
				size = len(enc) - 2
			}
		}
	}
	var buf bytes.Buffer
	type all3 struct {
		A []impl.ID
		B map[impl.ID]impl.ID
	}
	w := all3{all, map[impl.ID]impl.ID{all[0]: all[1]}}
	var back all3
	if err := gob.NewEncoder(&buf).Encode(w); err != nil {
		return err
	}
	if err := gob.NewDecoder(&buf).Decode(&back); err != nil {
		return err
	}
	if fmt.Sprint(w) != fmt.Sprint(back) {
		return fmt.Errorf("gob leads to %v", back)
	}
	return nil
}

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/representation"
)

// Inputs at the edges of what the other spaces contain.

func init() {
	extend("P04", func(string) []*Space {
		types := []string{"application/json", "application/xml", "application/yaml"}
		var ns []negotiator.Negotiator
		for m := 0; m < 8; m++ {
			ns = append(ns, strictNegotiator(strictFlags(m)))
		}
		return []*Space{{Name: "not strict", Dims: []int{8, len(listAccept), len(listLang), len(listCharset), len(listEnc), 4}, Run: func(d []int, t *T) string {
			h := Headers{listAccept[d[1]], listLang[d[2]], listCharset[d[3]], listEnc[d[4]]}
			reps := resource(3)[:d[5]/2+1]
			if d[5]%2 == 1 {
				// acceptable, but for the coding.
				for _, r := range reps {
					r.CT, r.CL, r.CC = "application/xml", "en-US", "utf-8"
				}
			}
			sq := thousands(len(reps))
			reduced, fail, ok := dropped(h, reps, sq, strictFlags(d[0]))
			if !ok {
				return t.Skip()
			}
			if !fail {
				all, ok := score(reduced, reps, sq)
				if !ok {
					return t.Skip()
				}
				for _, s := range all {
					if s.acceptable() {
						return t.Skip()
					}
				}
			}
			return notAcceptableList(ns[d[0]], h, reps, types, "application/json", t)
		}}}
	})
	extend("L01", qualitySpaces)
	extend("S02", emptySpaces)
	extend("P02", levelSpaces)
}

// fineQualities are not multiples of a thousandth.
func fineQualities() (out []float32) {
	for _, x := range []float32{0.0005, 0.0004999, 0.99999, 0.9999999, 1.0 / 3, 2.0 / 3, 1e-7, 1e-45, 0.1, 0.12345678, math.SmallestNonzeroFloat32, 1.5, 2, 100, 1e7, 16777216, 1e21, 3.4e38, math.MaxFloat32, -0.5, -1, 0.05, 0.00001, 0.000001} {
		out = append(out, x)
	}
	for i := 0; i < 10000; i += 7 {
		out = append(out, float32(i)/10000)
	}
	for i := 1; i < 10000000; i = i*3 + 1 {
		out = append(out, float32(i)/10000000)
	}
	return
}

func qualitySpaces(string) []*Space {
	formats := []string{"application/json", "application/xml", "application/yaml", "text/html"}
	qs := fineQualities()
	return []*Space{{Name: "fine source qualities", Dims: []int{len(formats), len(qs), 3}, Run: func(d []int, t *T) string {
		var reps []*Rep
		for i := 0; i < 3; i++ {
			r := plain(i)
			r.SQ = 0.5
			if i == d[2] {
				r.SQ = qs[d[1]]
			}
			reps = append(reps, r)
		}
		t.Describe(func() any { return map[string]any{"list type": formats[d[0]], "quality": qs[d[1]], "of": d[2]} })
		l := newList(formats[d[0]], func(l *representation.List) { l.SetContentEncoding(nil) })(asReps(reps)...)
		b, err := l.Bytes()
		t.Exec(1)
		t.Step("quality", hashStr(formats[d[0]]), uint64(d[1]))
		t.Outcome(formats[d[0]])
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		return checkList(formats[d[0]], b, reps)
	}}}
}

// blob is a representation whose format is up to the user.
type blob struct {
	representation.Base
	b    []byte
	read [][]byte
}

func (b *blob) Bytes() ([]byte, error) { return b.Base.Bytes(b) }

// emptySpaces serialise content of few or no bytes.
func emptySpaces(tier string) []*Space {
	contents := [][]byte{nil, {}, {0}, {'x'}, []byte("ab"), {0xff, 0xfe}, {0x1f, 0x8b}, {0x78, 0x9c}, bytes.Repeat([]byte{0}, 100)}
	depth := 3
	if thorough(tier) {
		depth = 4
	}
	return []*Space{
		{Name: "content of few bytes", Dims: append([]int{len(contents), 2}, dup(len(docCodings)+1, depth)...), Run: func(d []int, t *T) string {
			ce, ok := codingList(d[2:], docCodings)
			if !ok {
				return t.Skip()
			}
			c := contents[d[0]]
			t.Describe(func() any { return map[string]any{"content": fmt.Sprintf("%q", c), "codings": ce, "direction": d[1]} })
			t.Step("few bytes", uint64(d[0]), uint64(d[1]), hashStr(strings.Join(ce, ",")))
			t.Exec(1)
			x := &blob{}
			x.SetContentType("application/x-blob")
			x.SetContentEncoding(ce)
			x.SetMarshallers(map[string]representation.Marshaller{"application/x-blob": func(interface{}) ([]byte, error) { return c, nil }})
			x.SetUnmarshallers(map[string]representation.Unmarshaller{"application/x-blob": func(b []byte, _ interface{}) error {
				x.read = append(x.read, append([]byte{}, b...))
				return nil
			}})
			if d[1] == 0 {
				b, err := x.Bytes()
				if err != nil {
					return fmt.Sprintf("unexpected error %q", err)
				}
				p, err := decodeRef(ce, b)
				if err != nil {
					return fmt.Sprintf("the bytes %x are not encoded as %q: %v", b, ce, err)
				}
				if !bytes.Equal(p, c) {
					return fmt.Sprintf("decoded %q, the content is %q", p, c)
				}
				t.Outcome("written")
				return ""
			}
			if err := x.Base.FromBytes(encodeRef(ce, c), x); err != nil {
				return fmt.Sprintf("bytes encoded as %q are not read: %v", ce, err)
			}
			if len(x.read) != 1 || !bytes.Equal(x.read[0], c) {
				return fmt.Sprintf("read %q, the content is %q", x.read, c)
			}
			t.Outcome("read")
			return ""
		}},
		{Name: "serialization of nothing", Dims: append([]int{6, 4}, dup(len(docCodings)+1, 2)...), Run: func(d []int, t *T) string {
			ce, ok := codingList(d[2:], docCodings)
			if !ok {
				return t.Skip()
			}
			values := []any{[]string{}, []string(nil), (*Doc)(nil), map[string]string{}, "", Sub{}}
			ct := []string{"application/json", "application/xml", "application/yaml", "text/html"}[d[1]]
			v := values[d[0]]
			if d[1]%2 == 1 && d[0] == 3 {
				return t.Skip() // XML has no maps
			}
			t.Describe(func() any { return map[string]any{"value": fmt.Sprintf("%#v", v), "type": ct, "codings": ce} })
			t.Step("nothing", uint64(d[0]), uint64(d[1]), hashStr(strings.Join(ce, ",")))
			t.Exec(1)
			var x representation.Base
			x.SetContentType(ct)
			x.SetContentEncoding(ce)
			b, err := x.Bytes(&v)
			if d[0] != 2 {
				b, err = x.Bytes(v)
			}
			if err != nil {
				return fmt.Sprintf("unexpected error %q", err)
			}
			p, err := decodeRef(ce, b)
			if err != nil {
				return fmt.Sprintf("the bytes %x are not encoded as %q: %v", b, ce, err)
			}
			if want := plainBytes(ct, v); !bytes.Equal(p, want) {
				return fmt.Sprintf("decoded %q, the value is %q", p, want)
			}
			if ct == "application/json" && !json.Valid(p) {
				return "not JSON"
			}
			t.Outcome("written " + ct)
			return ""
		}},
	}
}

// levelSpaces spell the levels of HTML in several ways.
func levelSpaces(tier string) []*Space {
	types := []string{"text/html", "Text/HTML", "TEXT/HTML", "text/Html"}
	params := []string{"level=%d", "LEVEL=%d", "Level=%d", ` level="%d"`, "level=%d;version=2", "version=2; level=%d", "charset=utf-8;\tLevel=%d", "level=0%d", "level=+%d", `x="a b";level=%d`, `level=%d;x="a;level=99"`, `x="level=99,";level=%d`, `x="a\"level=99;\"";level=%d;y=""`}
	levels := []int{1, 2, 7}
	others := []string{"text/plain;level=99", "application/html;level=99", "text/html-x;level=99", "text/htm;level=99", "x/html;LEVEL=99", "text/html;levels=99", "text/html;x-level=99", "text/html", "text/html;version=99"}
	n := proactive.New(proactive.DisableNotAcceptableRepresentation())
	spell := len(types) * len(params) * len(levels)
	rep := func(id, k int) (*Rep, int) {
		r := plain(id)
		if k >= spell {
			r.CT = others[k-spell]
			return r, -1
		}
		l := levels[k%len(levels)]
		k /= len(levels)
		r.CT = types[k%len(types)] + ";" + fmt.Sprintf(params[k/len(types)], l)
		return r, l
	}
	// equal weights for every type.
	heads := []Headers{{}, {Accept: []Rng{rng("*/*", qNone)}}, {Accept: []Rng{rng("*/*", 300)}, Charset: []Rng{rng("*", qNone)}}, {Accept: []Rng{rng("text/*", 500), rng("*/*", 500)}}}
	return []*Space{{Name: "spelling of levels", Dims: []int{spell + len(others), spell + len(others), len(heads)}, Run: func(d []int, t *T) string {
		r0, l0 := rep(0, d[0])
		r1, l1 := rep(1, d[1])
		reps := []*Rep{r0, r1}
		want := 0
		if l1 > l0 {
			want = 1
		}
		h := heads[d[2]]
		t.Describe(func() any { return describe(h.http(), reps) })
		t.Step("level", hashStr(r0.CT), hashStr(r1.CT))
		rec, err := negotiateAny(n, h.http(), reps)
		t.Exec(1)
		return expectChoice(rec, err, reps, want, t)
	}}}
}

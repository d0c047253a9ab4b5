package main

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/freerware/negotiator/representation"
	"gopkg.in/yaml.v2"
)

// Doc is a representation of a user, embedding the base representation.
type Doc struct {
	representation.Base `json:"-" xml:"-" yaml:"-"`

	Name  string
	Count int
	Tags  []string
	Sub   Sub
}

// Sub is nested.
type Sub struct {
	Ratio float64
	Flag  bool
	Text  string
}

// Bytes serialises the document.
func (d Doc) Bytes() ([]byte, error) { return d.Base.Bytes(&d) }

// FromBytes reads the document.
func (d *Doc) FromBytes(b []byte) error { return d.Base.FromBytes(b, d) }

func (d *Doc) data() Doc { return Doc{Name: d.Name, Count: d.Count, Tags: d.Tags, Sub: d.Sub} }

func sameDoc(a, b *Doc) bool {
	x, y := a.data(), b.data()
	if len(x.Tags) == 0 && len(y.Tags) == 0 {
		x.Tags, y.Tags = nil, nil
	}
	return reflect.DeepEqual(x, y)
}

var docs = []Doc{
	{},
	{Name: "a", Count: 1, Tags: []string{"x"}, Sub: Sub{0.5, true, "t"}},
	{Name: `q"<&>'é✓`, Count: -7, Tags: []string{"", "a b", "- c: d", "null", "0x1"}, Sub: Sub{-1.25e10, false, "line\nbreak\ttab"}},
	{Name: strings.Repeat("repetition ", 3000), Count: 1 << 30, Tags: []string{"long"}},
	{Name: "true", Count: 0, Tags: []string{"~", "yes", "{x}", "[y]", "a#b"}, Sub: Sub{1, true, "1e3"}},
	{Name: noise(5000), Tags: []string{noise(33), noise(70)}, Count: 42},
	{Name: "a  b \t c\n\n  d", Count: 3, Tags: []string{"x   y", "two\n\nlines", "\ttab", "a\u00a0\u00a0b", "//  c", "/*  d  */", "<!--  e  -->", "#  f", "]]>"}, Sub: Sub{2, true, "  both  ends  "}},
}

// noise is text that does not compress well.
func noise(n int) string {
	b := make([]byte, n)
	s := uint64(88172645463325252)
	for i := range b {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+-"[s%64]
	}
	return string(b)
}

var docTypes = []string{"application/json", "application/xml", "application/yaml", "text/yaml", "text/html", "application/json;charset=utf-8", "TEXT/HTML", "Application/YAML;v=1;w=2", "application/xml ; charset=utf-8", "application/json\t;v=1"}

var docCodings = []string{"gzip", "deflate", "compress", "identity", "x-gzip", "x-compress", "GZIP", "Deflate", "IDENTITY"}

// plainBytes serialises without the library.
func plainBytes(ct string, v any) []byte {
	var (
		b   []byte
		err error
	)
	switch strings.ToLower(strings.TrimSpace(strings.SplitN(ct, ";", 2)[0])) {
	case "application/json":
		b, err = json.Marshal(v)
	case "application/xml", "text/html":
		b, err = xml.Marshal(v)
	default:
		b, err = yaml.Marshal(v)
	}
	must(err)
	return b
}

// codec kinds: g(zip), z(lib), f(late), i(dentity)
func kindOf(c string) byte {
	switch strings.ToLower(c) {
	case "gzip", "x-gzip":
		return 'g'
	case "compress", "x-compress":
		return 'z'
	case "deflate":
		return 'f'
	}
	return 'i'
}

// encodeRef and decodeRef apply codings in the order they are listed, without the library.
func encodeRef(codings []string, b []byte) []byte {
	for _, c := range codings {
		var buf bytes.Buffer
		var w io.WriteCloser
		switch kindOf(c) {
		case 'g':
			w = gzip.NewWriter(&buf)
		case 'z':
			w = zlib.NewWriter(&buf)
		case 'f':
			var err error
			w, err = flate.NewWriter(&buf, flate.BestSpeed)
			must(err)
		default:
			continue
		}
		_, err := w.Write(b)
		must(err)
		must(w.Close())
		b = buf.Bytes()
	}
	return b
}

// foreignForms are the ways in which other encoders write the same content.
const foreignForms = 12

// encodeForeign applies the codings, the outermost one (or all of them) in a
// form that the library does not write itself. It is false when the coding has
// no such form.
func encodeForeign(codings []string, b []byte, form int, all bool) ([]byte, bool) {
	for i, c := range codings {
		k := kindOf(c)
		if !all && i < len(codings)-1 || k == 'i' {
			b = encodeRef([]string{c}, b)
			continue
		}
		var buf bytes.Buffer
		level := []int{0, 1, 9, -2, 6, 6, 6, 6, 6, 6, 6, 6}[form]
		mk := func() io.WriteCloser {
			var w io.WriteCloser
			var err error
			switch k {
			case 'g':
				w, err = gzip.NewWriterLevel(&buf, level)
			case 'z':
				w, err = zlib.NewWriterLevel(&buf, level)
			default:
				w, err = flate.NewWriter(&buf, level)
			}
			must(err)
			return w
		}
		write := func(w io.WriteCloser, b []byte) {
			_, err := w.Write(b)
			must(err)
		}
		if form > 5 && k != 'g' {
			return nil, false
		}
		w := mk()
		switch form {
		case 4, 5: // flushed in the middle, or many times
			f := w.(interface{ Flush() error })
			step := len(b)/2 + 1
			if form == 5 {
				step = len(b)/40 + 1
			}
			for o := 0; o < len(b); o += step {
				write(w, b[o:min(o+step, len(b))])
				must(f.Flush())
			}
		case 6: // all header fields
			z := w.(*gzip.Writer)
			z.Name, z.Comment, z.Extra, z.OS = "n\u00e4me", "comment", []byte{1, 2, 3, 4}, 3
			z.ModTime = time.Unix(1500000000, 0)
			write(w, b)
		case 7: // two members
			write(w, b[:len(b)/2])
			must(w.Close())
			w = mk()
			write(w, b[len(b)/2:])
		case 8: // an empty member behind
			write(w, b)
			must(w.Close())
			w = mk()
		case 9: // an empty member ahead
			must(w.Close())
			w = mk()
			write(w, b)
		case 10: // many members
			for o, step := 0, len(b)/40+1; o < len(b); o += step {
				write(w, b[o:min(o+step, len(b))])
				must(w.Close())
				w = mk()
			}
		case 11: // only a file name
			w.(*gzip.Writer).Name = "a.json"
			write(w, b)
		default:
			write(w, b)
		}
		must(w.Close())
		b = buf.Bytes()
	}
	return b, true
}

func decodeRef(codings []string, b []byte) ([]byte, error) {
	for i := len(codings) - 1; i >= 0; i-- {
		src := bytes.NewReader(b)
		var r io.Reader
		var err error
		switch kindOf(codings[i]) {
		case 'g':
			r, err = gzip.NewReader(src)
		case 'z':
			r, err = zlib.NewReader(src)
		case 'f':
			r = flate.NewReader(src)
		default:
			continue
		}
		if err != nil {
			return nil, fmt.Errorf("%s: %w", codings[i], err)
		}
		if b, err = io.ReadAll(r); err != nil {
			return nil, fmt.Errorf("%s: %w", codings[i], err)
		}
		if src.Len() > 0 {
			return nil, fmt.Errorf("%s: trailing bytes", codings[i])
		}
	}
	return b, nil
}

// codingList decodes digits into a list of codings.
func codingList(d []int, names []string) ([]string, bool) {
	var out []string
	end := false
	for _, k := range d {
		if k == 0 {
			end = true
			continue
		}
		if end {
			return nil, false
		}
		out = append(out, names[k-1])
	}
	return out, true
}

func newDoc(from *Doc, ct string, ce []string) *Doc {
	var d Doc
	if from != nil {
		d = from.data()
		d.Tags = append([]string(nil), from.Tags...)
	}
	d.SetContentType(ct)
	d.SetContentEncoding(ce)
	return &d
}

func dup(n, k int) []int {
	d := make([]int, k)
	for i := range d {
		d[i] = n
	}
	return d
}

// roundTrip writes and reads the document.
func roundTrip(doc *Doc, ct string, ce []string, t *T) string {
	t.Describe(func() any {
		return map[string]any{"type": ct, "codings": ce, "name length": len(doc.Name), "tags": doc.Tags}
	})
	w := newDoc(doc, ct, ce)
	b, err := w.Bytes()
	t.Exec(2)
	if err != nil {
		return fmt.Sprintf("unexpected error %q", err)
	}
	keep := append([]byte(nil), b...)
	t.Step("encoded", hashStr(ct), hashStr(strings.Join(ce, ",")), uint64(len(doc.Name)))
	t.Outcome(fmt.Sprintf("%d codings", len(ce)))
	r := newDoc(nil, ct, ce)
	if err := r.FromBytes(b); err != nil {
		return fmt.Sprintf("reading back: %q", err)
	}
	if !sameDoc(w, doc) {
		return "serialising changed the document"
	}
	if !sameDoc(r, doc) {
		return fmt.Sprintf("read back %+v", r.data())
	}
	if !bytes.Equal(b, keep) {
		return "reading changed the bytes"
	}
	return ""
}

func init() {
	register(&Prop{
		ID:   "S01",
		Rule: "every document of the alphabet, in every content type, through every sequence of content codings up to the depth: reading the serialised form back yields the document",
		Spaces: func(tier string) []*Space {
			depth := 3
			if thorough(tier) {
				depth = 4
			}
			n := len(docCodings)
			small := []int{0, 1, 2, 4}
			rt := roundTrip
			return []*Space{
				{Name: "codings", Dims: append([]int{len(small), len(docTypes)}, dup(n+1, depth)...), Run: func(d []int, t *T) string {
					ce, ok := codingList(d[2:], docCodings)
					if !ok {
						return t.Skip()
					}
					if depth > 3 && len(ce) > 3 && d[1] > 3 {
						return t.Skip()
					}
					return rt(&docs[small[d[0]]], docTypes[d[1]], ce, t)
				}},
				{Name: "large documents", Dims: append([]int{len(docs), len(docTypes)}, dup(4+1, 2)...), Run: func(d []int, t *T) string {
					ce, ok := codingList(d[2:], docCodings[:4])
					if !ok {
						return t.Skip()
					}
					return rt(&docs[d[0]], docTypes[d[1]], ce, t)
				}},
				{Name: "every size", Dims: []int{600, 3, 5}, Run: func(d []int, t *T) string {
					n := d[0]
					if n > 300 {
						n = (n - 300) * 257
					}
					doc := Doc{Name: noise(n), Count: n}
					return rt(&doc, docTypes[d[1]], [][]string{nil, {"gzip"}, {"deflate"}, {"compress", "gzip"}, {"gzip", "deflate"}}[d[2]], t)
				}},
				{Name: "every character", Dims: []int{0x530, 3, 3}, Run: func(d []int, t *T) string {
					c := rune(d[0])
					if c < 0x20 && c != '\n' && c != '\t' || c >= 0x7f && c < 0xa0 {
						return t.Skip() // not representable in XML, and normalised in YAML
					}
					doc := Doc{Name: string(c), Tags: []string{"a" + string(c) + "b", string(c) + string(c)}}
					return rt(&doc, docTypes[d[1]], [][]string{nil, {"gzip"}, {"deflate"}}[d[2]], t)
				}},
			}
		},
	})

	register(&Prop{
		ID:   "S02",
		Rule: "every sequence of content codings up to the depth: the serialised form is decoded with the standard library in the reverse of the listed order and equals the plain serialisation; forms encoded with the standard library in the listed order are read",
		Spaces: func(tier string) []*Space {
			depth := 3
			if thorough(tier) {
				depth = 5
			}
			names := docCodings
			if thorough(tier) {
				names = docCodings[:7]
			}
			check := func(doc *Doc, ct string, ce []string, dir int, t *T) string {
				t.Describe(func() any {
					return map[string]any{"type": ct, "codings": ce, "name length": len(doc.Name), "direction": dir}
				})
				for i := range ce {
					t.Step("coding", hashStr(strings.Join(ce[:i+1], ",")), uint64(dir))
				}
				t.Exec(1)
				ref := plainBytes(ct, newDoc(doc, "", nil))
				if dir == 0 {
					b, err := newDoc(doc, ct, ce).Bytes()
					if err != nil {
						return fmt.Sprintf("unexpected error %q", err)
					}
					p, err := decodeRef(ce, b)
					if err != nil {
						return fmt.Sprintf("the bytes are not encoded as %q: %v", ce, err)
					}
					if !bytes.Equal(p, ref) {
						return fmt.Sprintf("decoded %q, the document is %q", p, ref)
					}
					t.Outcome(fmt.Sprintf("written, %d codings", len(ce)))
					return ""
				}
				r := newDoc(nil, ct, ce)
				if err := r.FromBytes(encodeRef(ce, ref)); err != nil {
					return fmt.Sprintf("bytes encoded as %q are not read: %v", ce, err)
				}
				if !sameDoc(r, doc) {
					return fmt.Sprintf("bytes encoded as %q are read as %+v", ce, r.data())
				}
				t.Outcome(fmt.Sprintf("read, %d codings", len(ce)))
				return ""
			}
			return []*Space{
				{Name: "codings", Dims: append([]int{2, 2, 3}, dup(len(names)+1, depth)...), Run: func(d []int, t *T) string {
					ce, ok := codingList(d[3:], names)
					if !ok {
						return t.Skip()
					}
					if len(ce) > 4 && d[2] > 0 {
						return t.Skip()
					}
					return check(&docs[1+d[0]], docTypes[d[2]], ce, d[1], t)
				}},
				{Name: "other encoders", Dims: append([]int{foreignForms, 2, len(docs), 3}, dup(len(names)+1, 2)...), Run: func(d []int, t *T) string {
					ce, ok := codingList(d[4:], names)
					if !ok {
						return t.Skip()
					}
					doc := &docs[d[2]]
					b, ok := encodeForeign(ce, plainBytes(docTypes[d[3]], newDoc(doc, "", nil)), d[0], d[1] == 1)
					if !ok {
						return t.Skip()
					}
					t.Describe(func() any {
						return map[string]any{"type": docTypes[d[3]], "codings": ce, "form": d[0], "every coding": d[1] == 1, "document": d[2]}
					})
					t.Step("other encoder", uint64(d[0]), uint64(d[1]), hashStr(strings.Join(ce, ",")))
					r := newDoc(nil, docTypes[d[3]], ce)
					t.Exec(1)
					if err := r.FromBytes(b); err != nil {
						return fmt.Sprintf("bytes encoded as %q in form %d are not read: %v", ce, d[0], err)
					}
					if !sameDoc(r, doc) {
						return fmt.Sprintf("bytes encoded as %q in form %d are read as %+v", ce, d[0], r.data())
					}
					t.Outcome(fmt.Sprintf("read, form %d", d[0]))
					return ""
				}},
				{Name: "types and documents", Dims: append([]int{len(docs), 2, len(docTypes)}, dup(5, 2)...), Run: func(d []int, t *T) string {
					ce, ok := codingList(d[3:], docCodings[:4])
					if !ok {
						return t.Skip()
					}
					return check(&docs[d[0]], docTypes[d[2]], ce, d[1], t)
				}},
				{Name: "lists", Dims: append([]int{4, len(docTypes)}, dup(len(docCodings)+1, 2)...), Run: func(d []int, t *T) string {
					ce, ok := codingList(d[2:], docCodings)
					if !ok {
						return t.Skip()
					}
					rs := resource(d[0])
					l := representation.List{}
					l.SetContentType(docTypes[d[1]])
					l.SetContentEncoding(ce)
					l.SetRepresentations(asReps(rs)...)
					t.Describe(func() any { return map[string]any{"type": docTypes[d[1]], "codings": ce, "representations": len(rs)} })
					b, err := l.Bytes()
					t.Exec(1)
					t.Step("list", uint64(d[0]), uint64(d[1]), hashStr(strings.Join(ce, ",")))
					if err != nil {
						return fmt.Sprintf("unexpected error %q", err)
					}
					p, err := decodeRef(ce, b)
					if err != nil {
						return fmt.Sprintf("the list is not encoded as %q: %v", ce, err)
					}
					t.Outcome("list")
					return checkList(docTypes[d[1]], p, rs)
				}},
			}
		},
	})

	register(&Prop{
		ID:   "S03",
		Rule: "every truncation and every single bit flip of serialised documents for every sequence of content codings: reading fails, or yields the document; serialised texts edited at every position mean what their format defines; unsupported types and codings at every position are errors both ways",
		Spaces: func(tier string) []*Space {
			stacks := [][]string{nil, {"gzip"}, {"compress"}, {"deflate"}, {"identity", "x-gzip"}, {"gzip", "deflate"}, {"deflate", "gzip"}, {"compress", "deflate"}, {"deflate", "x-compress"}, {"gzip", "compress"}, {"compress", "gzip"}, {"deflate", "deflate"}, {"gzip", "gzip"}, {"gzip", "deflate", "compress"}, {"deflate", "compress", "gzip"}}
			types := docTypes[:3]
			which := []int{1, 2}
			if thorough(tier) {
				which = []int{0, 1, 2, 4, 5}
			}
			// the serialised forms, made without the library.
			encoded := func(doc, ty, st int) []byte {
				return encodeRef(stacks[st], plainBytes(types[ty], newDoc(&docs[which[doc]], "", nil)))
			}
			longest := 0
			cache := map[[3]int][]byte{}
			for d := range which {
				for ty := range types {
					for st := range stacks {
						b := encoded(d, ty, st)
						cache[[3]int{d, ty, st}] = b
						if len(b) > longest {
							longest = len(b)
						}
					}
				}
			}
			read := func(doc, ty, st int, b []byte, mustFail bool, t *T) string {
				r := newDoc(nil, types[ty], stacks[st])
				err := r.FromBytes(b)
				t.Exec(1)
				if err != nil {
					t.Outcome("error")
					return ""
				}
				if mustFail {
					return fmt.Sprintf("%d of %d bytes are read without an error, as %+v", len(b), len(cache[[3]int{doc, ty, st}]), r.data())
				}
				if !sameDoc(r, &docs[which[doc]]) {
					return fmt.Sprintf("damaged bytes are read without an error, as %+v", r.data())
				}
				t.Outcome("intact")
				return ""
			}
			unsup := []string{"gzip", "identity", "br", "", "gzi", "gzip2", "zstd", "identity ", "gzip,deflate"}
			unsupT := []string{"application/json", "text/plain", "", "json", "application/jsonx", "application", "text/*", "*/*", "application/vnd.a+json", ";application/json"}
			supported := map[string]bool{"gzip": true, "identity": true}
			return []*Space{
				{Name: "truncation", Dims: []int{len(which), len(types), len(stacks), longest}, Run: func(d []int, t *T) string {
					full := cache[[3]int{d[0], d[1], d[2]}]
					if d[3] >= len(full) || d[2] == 0 {
						return t.Skip()
					}
					t.Describe(func() any {
						return map[string]any{"type": types[d[1]], "codings": stacks[d[2]], "document": which[d[0]], "kept bytes": d[3], "of": len(full)}
					})
					t.Step("cut", uint64(d[0]), uint64(d[1]), uint64(d[2]), uint64(d[3]))
					return read(d[0], d[1], d[2], full[:d[3]], true, t)
				}},
				{Name: "bit flips", Dims: []int{len(which), len(types), len(stacks), longest, 8}, Run: func(d []int, t *T) string {
					full := cache[[3]int{d[0], d[1], d[2]}]
					// the checksum is one of the outermost coding.
					if d[3] >= len(full) || d[2] == 0 || kindOf(stacks[d[2]][len(stacks[d[2]])-1]) == 'f' {
						return t.Skip()
					}
					b := append([]byte(nil), full...)
					b[d[3]] ^= 1 << uint(d[4])
					t.Describe(func() any {
						return map[string]any{"type": types[d[1]], "codings": stacks[d[2]], "document": which[d[0]], "byte": d[3], "bit": d[4]}
					})
					t.Step("flip", uint64(d[0]), uint64(d[1]), uint64(d[2]), uint64(d[3]))
					return read(d[0], d[1], d[2], b, false, t)
				}},
				{Name: "unsupported", Dims: append([]int{len(unsupT), 2}, dup(len(unsup)+1, 3)...), Run: func(d []int, t *T) string {
					ce, ok := codingList(d[2:], unsup)
					if !ok {
						return t.Skip()
					}
					ct := unsupT[d[0]]
					t.Describe(func() any { return map[string]any{"type": ct, "codings": ce, "reading": d[1] == 1} })
					badT, badC := d[0] > 0, false
					for _, c := range ce {
						badC = badC || !supported[c]
					}
					t.Step("support", b2u(badT), b2u(badC), hashStr(strings.Join(ce, "|")))
					doc := newDoc(&docs[1], ct, ce)
					var err error
					if d[1] == 0 {
						_, err = doc.Bytes()
					} else {
						// a well formed input for the supported part.
						err = doc.FromBytes(encodeRef(ce, plainBytes("application/json", newDoc(&docs[1], "", nil))))
					}
					t.Exec(1)
					isT, isC := errors.Is(err, representation.ErrUnsupportedContentType), errors.Is(err, representation.ErrUnsupportedContentEncoding)
					switch {
					case !badT && !badC:
						t.Outcome("supported")
						if err != nil {
							return fmt.Sprintf("unexpected error %q", err)
						}
					case badT && !badC:
						t.Outcome("unsupported type")
						if !isT {
							return fmt.Sprintf("error %v for an unsupported type", err)
						}
					case badC && !badT:
						t.Outcome("unsupported coding")
						// reading may stumble over the bytes before it gets to the coding.
						if err == nil || d[1] == 0 && !isC {
							return fmt.Sprintf("error %v for an unsupported coding", err)
						}
					default:
						t.Outcome("unsupported type and coding")
						if !isT && !isC {
							return fmt.Sprintf("error %v for an unsupported type and coding", err)
						}
					}
					return ""
				}},
			}
		},
	})

	register(&Prop{
		ID:     "S04",
		Rule:   "every sequence of configuration steps (marshallers, unmarshallers, codec constructors, type, codings, for one of two instances) up to the depth; after every sequence both instances are written and read, the model tracks the tables of each instance",
		Spaces: instanceSpaces,
	})

	register(&Prop{
		ID:     "S05",
		Rule:   "every failure of every call (constructor, write, read, close, marshaller) of custom codecs in every stack up to the depth: the failure is reported, and without failure every writer is closed exactly once, inside out",
		Spaces: codecFaultSpaces,
	})
}

// tables of an instance in the model: the tag of the table, "" for the default one.
type instance struct {
	m, u, w, r string
	ct         string
	ce         []string
}

// the custom formats put a tag in front of the content.
func tagMarshal(tag string) representation.Marshaller {
	return func(v interface{}) ([]byte, error) {
		b, err := json.Marshal(v)
		return append([]byte(tag+":"), b...), err
	}
}

func tagUnmarshal(tag string) representation.Unmarshaller {
	return func(b []byte, v interface{}) error {
		if !bytes.HasPrefix(b, []byte(tag+":")) {
			return errors.New("not " + tag)
		}
		return json.Unmarshal(b[len(tag)+1:], v)
	}
}

type tagWriter struct {
	tag string
	w   io.Writer
	b   bytes.Buffer
}

func (t *tagWriter) Write(b []byte) (int, error) { return t.b.Write(b) }
func (t *tagWriter) Close() error {
	_, err := t.w.Write(append([]byte("<"+t.tag+">"), t.b.Bytes()...))
	return err
}

func tagWriterOf(tag string) representation.EncodingWriterConstructor {
	return func(w io.WriteCloser) (io.WriteCloser, error) { return &tagWriter{tag: tag, w: w}, nil }
}

func tagReaderOf(tag string) representation.EncodingReaderConstructor {
	return func(r io.Reader) (io.ReadCloser, error) {
		b, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		p := []byte("<" + tag + ">")
		if !bytes.HasPrefix(b, p) {
			return nil, errors.New("not " + tag)
		}
		return io.NopCloser(bytes.NewReader(b[len(p):])), nil
	}
}

// the tables know one type (application/json for A, application/x-b for both)
// and one coding (gzip for A, x-b for both).
func marshallers(tag string) map[string]representation.Marshaller {
	m := map[string]representation.Marshaller{}
	if tag == "" {
		return m
	}
	m["application/x-b"] = tagMarshal(tag)
	if tag == "A" {
		m["application/json"] = tagMarshal(tag)
	}
	return m
}

func unmarshallers(tag string) map[string]representation.Unmarshaller {
	m := map[string]representation.Unmarshaller{}
	if tag == "" {
		return m
	}
	m["application/x-b"] = tagUnmarshal(tag)
	if tag == "A" {
		m["application/json"] = tagUnmarshal(tag)
	}
	return m
}

func codecWriters(tag string) map[string]representation.EncodingWriterConstructor {
	m := map[string]representation.EncodingWriterConstructor{}
	if tag == "" {
		return m
	}
	m["x-b"] = tagWriterOf(tag)
	if tag == "A" {
		m["gzip"] = tagWriterOf(tag)
	}
	return m
}

func codecReaders(tag string) map[string]representation.EncodingReaderConstructor {
	m := map[string]representation.EncodingReaderConstructor{}
	if tag == "" {
		return m
	}
	m["x-b"] = tagReaderOf(tag)
	if tag == "A" {
		m["gzip"] = tagReaderOf(tag)
	}
	return m
}

// knows tells whether the table knows the name.
func tableKnows(tag, name string, byDefault bool) bool {
	name = strings.ToLower(name)
	switch tag {
	case "A":
		return name == "application/json" || name == "gzip" || name == "application/x-b" || name == "x-b"
	case "B":
		return name == "application/x-b" || name == "x-b"
	}
	return byDefault
}

func defaultType(ct string) bool { return ct == "application/json" }

// write is the serialised form in the model.
func (i *instance) write(doc *Doc) ([]byte, error) {
	if !tableKnows(i.m, i.ct, defaultType(i.ct)) {
		return nil, representation.ErrUnsupportedContentType
	}
	b := plainBytes("application/json", newDoc(doc, "", nil))
	if i.m != "" {
		b = append([]byte(i.m+":"), b...)
	}
	for _, c := range i.ce {
		if c == "identity" {
			continue
		}
		if !tableKnows(i.w, c, c == "gzip") {
			return nil, representation.ErrUnsupportedContentEncoding
		}
	}
	for _, c := range i.ce {
		switch {
		case c == "identity":
		case i.w == "":
			b = encodeRef([]string{c}, b)
		default:
			b = append([]byte("<"+i.w+">"), b...)
		}
	}
	return b, nil
}

// form is what an instance reads.
func (i *instance) form(doc *Doc) ([]byte, error) {
	if !tableKnows(i.u, i.ct, defaultType(i.ct)) {
		return nil, representation.ErrUnsupportedContentType
	}
	b := plainBytes("application/json", newDoc(doc, "", nil))
	if i.u != "" {
		b = append([]byte(i.u+":"), b...)
	}
	for _, c := range i.ce {
		if c == "identity" {
			continue
		}
		if !tableKnows(i.r, c, c == "gzip") {
			return nil, representation.ErrUnsupportedContentEncoding
		}
		if i.r == "" {
			b = encodeRef([]string{c}, b)
		} else {
			b = append([]byte("<"+i.r+">"), b...)
		}
	}
	return b, nil
}

// metadataValues: every metadata value is overwritten by every other one, and
// reads back exactly, before and after the instance was used.
func metadataValues() *Space {
	texts := []string{"", "text/html", "TEXT/Html; Charset=\"x\"", " padded ", "a,b", "*", "\x80\x00", strings.Repeat("long", 100), "text/html;level=1;level=2", "application/json"}
	lists := [][]string{nil, {}, {"gzip"}, {"GZip", "identity", ""}, {"gzip", "gzip"}, {"", ""}, {"identity"}, {"b", "a", "B"}, {" x "}}
	qualities := []float32{0, 1, 0.5, 0.0001, -1, 2, float32(math.NaN()), float32(math.Inf(1)), 0.9999}
	urls := []url.URL{{}, {Path: "/a"}, {Path: "/a", RawQuery: "x=1", Fragment: "f"}, {Path: "/a/b", RawPath: "/a%2Fb"}, {Scheme: "HTTP", Host: "H:80", Path: "/../x//"}, {Opaque: "o", Scheme: "x"}, {User: url.UserPassword("u", "p"), Host: "h"}, {Host: "h", ForceQuery: true}}
	n := len(texts)
	return &Space{Name: "metadata values", Dims: []int{7, n, n, n, 2}, Run: func(d []int, t *T) string {
		x := newDoc(&docs[1], "", nil)
		other := newDoc(&docs[2], "", nil)
		x.SetSourceQuality(0.25)
		field := []string{"type", "language", "charset", "codings", "features", "quality", "location"}[d[0]]
		t.Describe(func() any { return map[string]any{"field": field, "values": d[1:4]} })
		t.Outcome(field)
		for _, k := range d[1:4] {
			var set, got any
			switch d[0] {
			case 0, 1, 2:
				v := texts[k]
				set = v
				switch d[0] {
				case 0:
					x.SetContentType(v)
					got = x.ContentType()
				case 1:
					x.SetContentLanguage(v)
					got = x.ContentLanguage()
				case 2:
					x.SetContentCharset(v)
					got = x.ContentCharset()
				}
			case 3, 4:
				if k >= len(lists) {
					return t.Skip()
				}
				var l []string
				if d[0] == 3 {
					x.SetContentEncoding(append([]string(nil), lists[k]...))
					l = x.ContentEncoding()
				} else {
					x.SetContentFeatures(append([]string(nil), lists[k]...))
					l = x.ContentFeatures()
				}
				set, got = fmt.Sprintf("%q", lists[k]), fmt.Sprintf("%q", l)
			case 5:
				if k >= len(qualities) {
					return t.Skip()
				}
				x.SetSourceQuality(qualities[k])
				set, got = math.Float32bits(qualities[k]), math.Float32bits(x.SourceQuality())
			case 6:
				if k >= len(urls) {
					return t.Skip()
				}
				x.SetContentLocation(urls[k])
				set, got = urls[k], x.ContentLocation()
			}
			t.Exec(1)
			t.Step(field, uint64(k))
			if set != got {
				return fmt.Sprintf("%s was set to %#v, and is %#v", field, set, got)
			}
			if d[4] == 1 {
				_, _ = x.Bytes()
				_ = x.FromBytes([]byte("{}"))
				if l := x.ContentLocation(); d[0] == 6 && l != urls[k] || d[0] == 0 && x.ContentType() != texts[k] || d[0] == 1 && x.ContentLanguage() != texts[k] || d[0] == 2 && x.ContentCharset() != texts[k] {
					return fmt.Sprintf("%s was set to %#v, and is different after serializing", field, set)
				}
			}
		}
		if l := other.ContentLocation(); other.ContentType() != "" || other.ContentLanguage() != "" || other.ContentCharset() != "" || len(other.ContentEncoding())+len(other.ContentFeatures()) > 0 || other.SourceQuality() != 0 || l != (url.URL{}) {
			return "another representation was changed"
		}
		return ""
	}}
}

func instanceSpaces(tier string) []*Space {
	type step struct {
		name  string
		apply func(d *Doc, i *instance)
	}
	var steps []step
	add := func(name string, f func(d *Doc, i *instance)) { steps = append(steps, step{name, f}) }
	for _, tag := range []string{"A", "B", ""} {
		tag := tag
		add("marshallers "+tag, func(d *Doc, i *instance) { d.SetMarshallers(marshallers(tag)); i.m = tag })
		add("unmarshallers "+tag, func(d *Doc, i *instance) { d.SetUnmarshallers(unmarshallers(tag)); i.u = tag })
		add("writers "+tag, func(d *Doc, i *instance) { d.SetEncodingWriters(codecWriters(tag)); i.w = tag })
		add("readers "+tag, func(d *Doc, i *instance) { d.SetEncodingReaders(codecReaders(tag)); i.r = tag })
	}
	add("nil marshallers", func(d *Doc, i *instance) { d.SetMarshallers(nil); i.m = "" })
	add("nil readers", func(d *Doc, i *instance) { d.SetEncodingReaders(nil); i.r = "" })
	for _, ct := range []string{"application/json", "application/x-b"} {
		ct := ct
		add("type "+ct, func(d *Doc, i *instance) { d.SetContentType(ct); i.ct = ct })
	}
	for _, ce := range [][]string{nil, {"gzip"}, {"x-b", "identity"}, {"gzip", "gzip"}} {
		ce := ce
		add(fmt.Sprintf("codings %q", ce), func(d *Doc, i *instance) { d.SetContentEncoding(ce); i.ce = ce })
	}
	depth := 3
	if thorough(tier) {
		depth = 4
	}
	doc := &docs[1]
	observe := func(d *Doc, i *instance, doc *Doc, t *T) string {
		want, wantErr := i.write(doc)
		got, err := d.Bytes()
		t.Exec(2)
		if (err == nil) != (wantErr == nil) || wantErr != nil && !errors.Is(err, wantErr) {
			return fmt.Sprintf("writing: error %v, the model has %v", err, wantErr)
		}
		if err == nil {
			if len(i.ce) > 0 && i.w == "" {
				// compressed forms are compared by their content.
				var e1, e2 error
				got, e1 = decodeRef(i.ce, got)
				want, e2 = decodeRef(i.ce, want)
				if e1 != nil || e2 != nil {
					return fmt.Sprintf("not decodable: %v %v", e1, e2)
				}
			}
			if !bytes.Equal(got, want) {
				return fmt.Sprintf("wrote %q, the model %q", got, want)
			}
		}
		form, formErr := i.form(doc)
		r := newDoc(nil, "", nil)
		r.Base = d.Base
		err = r.FromBytes(form)
		if (err == nil) != (formErr == nil) {
			return fmt.Sprintf("reading: error %v, the model has %v", err, formErr)
		}
		if err == nil && !sameDoc(r, doc) {
			return fmt.Sprintf("read %+v", r.data())
		}
		return ""
	}
	n := len(steps)
	var dims []int
	for i := 0; i < depth; i++ {
		dims = append(dims, n+1)
	}
	return []*Space{
		{Name: "steps of two instances", Dims: append([]int{2, 1 << uint(depth)}, dims...), Run: func(d []int, t *T) string {
			// both are observed at the end only, or after every step.
			always := d[0] == 1
			d = d[1:]
			ds := []*Doc{newDoc(doc, "application/json", nil), newDoc(doc, "application/json", nil)}
			is := []*instance{{ct: "application/json"}, {ct: "application/json"}}
			var names []string
			end := false
			for k, s := range d[1:] {
				if s == 0 {
					end = true
					if d[0]>>uint(k)&1 == 1 {
						return t.Skip()
					}
					continue
				}
				if end {
					return t.Skip()
				}
				x := d[0] >> uint(k) & 1
				if k == 0 && x == 1 {
					return t.Skip() // the instances are alike
				}
				steps[s-1].apply(ds[x], is[x])
				names = append(names, fmt.Sprintf("%d: %s", x, steps[s-1].name))
				t.Step("tables", hashStr(fmt.Sprintf("%v%v", *is[0], *is[1])))
				for i := range ds {
					if !always {
						break
					}
					// another content every time.
					of := &docs[(k+i)%2]
					ds[i].Name, ds[i].Count, ds[i].Tags, ds[i].Sub = of.Name, of.Count, of.Tags, of.Sub
					if m := observe(ds[i], is[i], of, t); m != "" {
						return fmt.Sprintf("after %q, instance %d: %s", names, i, m)
					}
					ds[i].Name, ds[i].Count, ds[i].Tags, ds[i].Sub = doc.Name, doc.Count, doc.Tags, doc.Sub
				}
			}
			t.Describe(func() any { return names })
			t.Outcome("observed")
			for k := range ds {
				if m := observe(ds[k], is[k], doc, t); m != "" {
					return fmt.Sprintf("instance %d: %s", k, m)
				}
			}
			return ""
		}},
		metadataValues(),
		{Name: "metadata", Dims: dup(9, 5), Run: func(d []int, t *T) string {
			// setters in any order, of two instances.
			a, b := &Doc{}, &Doc{}
			want := map[string]string{}
			var names []string
			for k, s := range d {
				x := a
				id := "a"
				if k%2 == 1 {
					x, id = b, "b"
				}
				v := fmt.Sprintf("v%d", k)
				key := ""
				switch s {
				case 0:
					continue
				case 1:
					key = "type"
					x.SetContentType(v)
				case 2:
					key = "language"
					x.SetContentLanguage(v)
				case 3:
					key = "charset"
					x.SetContentCharset(v)
				case 4:
					key = "encoding"
					x.SetContentEncoding([]string{v, v + "x"})
				case 5:
					key = "location"
					x.SetContentLocation(url.URL{Path: "/" + v, RawQuery: v})
				case 6:
					key = "features"
					x.SetContentFeatures([]string{v})
				case 7:
					key = "quality"
					x.SetSourceQuality(float32(k+1) / 8)
				case 8:
					x.SetMarshallers(marshallers("A"))
					continue
				}
				want[id+key] = v
				names = append(names, id+" "+key+" "+v)
			}
			t.Describe(func() any { return names })
			t.Step("metadata", hashStr(fmt.Sprint(want)))
			t.Exec(1)
			t.Outcome("observed")
			for id, x := range map[string]*Doc{"a": a, "b": b} {
				l := x.ContentLocation()
				got := map[string]string{"type": x.ContentType(), "language": x.ContentLanguage(), "charset": x.ContentCharset(),
					"encoding": strings.Join(x.ContentEncoding(), ","), "location": l.String(), "features": strings.Join(x.ContentFeatures(), ","), "quality": fmt.Sprint(x.SourceQuality())}
				for k, g := range got {
					w := want[id+k]
					switch {
					case k == "encoding" && w != "":
						w = w + "," + w + "x"
					case k == "location" && w != "":
						w = "/" + w + "?" + w
					case k == "quality" && w != "":
						var n int
						fmt.Sscanf(w, "v%d", &n)
						w = fmt.Sprint(float32(n+1) / 8)
					case k == "quality":
						w = "0"
					}
					if g != w {
						return fmt.Sprintf("%s of %s is %q, was set to %q", k, id, g, w)
					}
				}
			}
			return ""
		}},
	}
}

// faultCodec records and fails the calls of the codecs.
type faultCodec struct {
	f    *faults
	open map[string]int
	log  []string
}

type fWriter struct {
	c    *faultCodec
	name string
	w    io.Writer
}

func (w *fWriter) Write(b []byte) (int, error) {
	if err := w.c.f.call("write " + w.name); err != nil {
		return len(w.c.f.rest(b)), err
	}
	return w.w.Write(b)
}

func (w *fWriter) Close() error {
	w.c.open[w.name]--
	w.c.log = append(w.c.log, "close "+w.name)
	if err := w.c.f.call("close " + w.name); err != nil {
		return err
	}
	_, err := w.w.Write([]byte("/" + w.name[:1]))
	return err
}

type fReader struct {
	c    *faultCodec
	name string
	r    *bytes.Reader
}

func (r *fReader) Read(b []byte) (int, error) {
	if err := r.c.f.call("read " + r.name); err != nil {
		return copy(b, r.c.f.rest([]byte("conten"))), err
	}
	return r.r.Read(b)
}

func (r *fReader) Close() error {
	r.c.open[r.name]--
	return r.c.f.call("close " + r.name)
}

func codecFaultSpaces(tier string) []*Space {
	names := []string{"x-a", "x-b", "identity"}
	points := 16
	depth := 3
	if thorough(tier) {
		points = 40
		depth = 4
	}
	// build configures a document with codecs that fail as f tells.
	build := func(ce []string, f *faults) (*Doc, *faultCodec) {
		c := &faultCodec{f: f, open: map[string]int{}}
		d := newDoc(&docs[1], "application/x-t", ce)
		count := 0
		d.SetMarshallers(map[string]representation.Marshaller{"application/x-t": func(v interface{}) ([]byte, error) {
			if err := f.call("marshal"); err != nil {
				return f.rest([]byte("content")), err
			}
			return []byte("content"), nil
		}})
		d.SetUnmarshallers(map[string]representation.Unmarshaller{"application/x-t": func(b []byte, v interface{}) error {
			if err := f.call("unmarshal"); err != nil {
				return err
			}
			v.(*Doc).Name = string(b)
			return nil
		}})
		ws := map[string]representation.EncodingWriterConstructor{}
		rs := map[string]representation.EncodingReaderConstructor{}
		for _, n := range []string{"x-a", "x-b"} {
			n := n
			ws[n] = func(w io.WriteCloser) (io.WriteCloser, error) {
				count++
				id := fmt.Sprintf("%s%d", n[2:], count)
				if err := f.call("new " + id); err != nil {
					if f.rest([]byte{0}) != nil {
						return &fWriter{c, id, w}, err
					}
					return nil, err
				}
				c.open[id]++
				return &fWriter{c, id, w}, nil
			}
			rs[n] = func(r io.Reader) (io.ReadCloser, error) {
				count++
				id := fmt.Sprintf("%s%d", n[2:], count)
				if err := f.call("new " + id); err != nil {
					if f.rest([]byte{0}) != nil {
						return &fReader{c, id, bytes.NewReader([]byte("content"))}, err
					}
					return nil, err
				}
				b, err := io.ReadAll(r)
				if err != nil {
					return nil, err
				}
				p := "/" + n[2:]
				if !bytes.HasSuffix(b, []byte(p)) {
					return nil, errors.New("not " + n)
				}
				c.open[id]++
				return &fReader{c, id, bytes.NewReader(b[:len(b)-2])}, nil
			}
		}
		d.SetEncodingWriters(ws)
		d.SetEncodingReaders(rs)
		return d, c
	}
	encodedForm := func(ce []string) string {
		s := "content"
		for _, c := range ce {
			if c != "identity" {
				s += "/" + c[2:]
			}
		}
		return s
	}
	run := func(ce []string, dir int, f *faults, t *T) string {
		t.Describe(func() any {
			return map[string]any{"codings": ce, "reading": dir == 1, "calls": f.calls, "failed": f.failed}
		})
		d, c := build(ce, f)
		var err error
		var b []byte
		if dir == 0 {
			b, err = d.Bytes()
		} else {
			err = d.FromBytes([]byte(encodedForm(ce)))
		}
		t.Exec(1)
		t.Step("codec faults", uint64(dir), hashStr(strings.Join(ce, ",")), hashStr(strings.Join(f.failed, ",")))
		if len(f.failed) > 0 {
			t.Outcome("failed")
			if !errors.Is(err, f.cause()) {
				return fmt.Sprintf("%s failed, the error is %v", f.failed, err)
			}
			return ""
		}
		t.Outcome("done")
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		for id, n := range c.open {
			if n != 0 {
				return fmt.Sprintf("%s was closed %d times", id, 1-n)
			}
		}
		if dir == 0 && string(b) != encodedForm(ce) {
			return fmt.Sprintf("wrote %q, the model %q", b, encodedForm(ce))
		}
		if dir == 1 && d.Name != "content" {
			return fmt.Sprintf("read %q", d.Name)
		}
		return ""
	}
	kinds := errorKinds()
	return []*Space{
		{Name: "kinds of failures", Dims: append([]int{2, points, len(kinds)}, dup(len(names)+1, 2)...), Run: func(d []int, t *T) string {
			ce, ok := codingList(d[3:], names)
			if !ok {
				return t.Skip()
			}
			f := noFaults()
			f.mask, f.err = 1<<uint(d[1]), kinds[d[2]].err
			m := run(ce, d[0], f, t)
			if len(f.failed) == 1 && strings.HasPrefix(f.failed[0], "read") && f.err == io.EOF {
				return "" // the end of the content is no failure
			}
			return m
		}},
		{Name: "one failure", Dims: append([]int{2, points, 3}, dup(len(names)+1, depth)...), Run: func(d []int, t *T) string {
			ce, ok := codingList(d[3:], names)
			if !ok {
				return t.Skip()
			}
			f := noFaults()
			f.partial = d[2]
			if d[1] > 0 {
				f.mask = 1 << uint(d[1]-1)
			}
			return run(ce, d[0], f, t)
		}},
		{Name: "all failures from a call on", Dims: append([]int{2, points}, dup(len(names)+1, depth)...), Run: func(d []int, t *T) string {
			ce, ok := codingList(d[2:], names)
			if !ok {
				return t.Skip()
			}
			f := noFaults()
			f.from = d[1]
			return run(ce, d[0], f, t)
		}},
		{Name: "two failures", Dims: append([]int{2, points, points}, dup(len(names)+1, 2)...), Run: func(d []int, t *T) string {
			ce, ok := codingList(d[3:], names)
			if !ok || d[1] >= d[2] {
				return t.Skip()
			}
			f := noFaults()
			f.mask = 1<<uint(d[1]) | 1<<uint(d[2])
			return run(ce, d[0], f, t)
		}},
	}
}

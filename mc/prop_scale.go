package main

import (
	"bytes"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// Scale: the numbers and lengths at which implementations change their
// behaviour (buffers, words, growth of slices, sort algorithms, caches) are
// the powers of two and of ten, and their neighbors. The spaces of this file
// put every one of them into every place that has a number or a length.

var extensions = map[string][]func(tier string) []*Space{}

// extend adds spaces to a property.
func extend(id string, f func(tier string) []*Space) { extensions[id] = append(extensions[id], f) }

// scale provides all small numbers, and the neighborhoods of the powers of two
// and ten (and of their halves) up to max.
func scale(max int) (out []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n >= 1 && n <= max && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for i := 1; i <= 13; i++ {
		add(i)
	}
	for p := 16; p <= max+1; p *= 2 {
		for i := -1; i <= 1; i++ {
			add(p + i)
		}
		add(p * 3 / 2)
	}
	for p := 10; p <= max+1; p *= 10 {
		for i := -1; i <= 1; i++ {
			add(p + i)
			add(p*2 + i)
			add(p*5 + i)
		}
	}
	add(max)
	return
}

// longName is a name of the length that has a distinguishing letter at a place.
func longName(n, place int, c byte) string {
	b := bytes.Repeat([]byte{'a'}, n)
	b[place*(n-1)/2] = c
	return string(b)
}

// unfamiliar values are well-formed, and mostly unknown to registries.
var unfamiliar = [][]string{
	{"x/y", "text/x.unknown", "a/b+c", "example/example", "text/html-5", "application/vnd.a.b.c-1.2+json", "0/0", "font/x", "a-b/c-d", "X/Y", "model/x!#$", "text/a.b", "x-a/x-b", "haptics/ivs"},
	{"xx", "b", "xx-XZ", "klingonic", "zz-ZZ", "qaa", "x-private", "i-enochian", "art-lojban", "sgn-BE-FR", "qqq-Qaaa-ZZ", "abcdefgh", "yue-x-a", "tlh"},
	{"x", "unknown", "utf-9", "x-user-defined", "a.b", "cp0", "ISO_8859-99", "utf8", "UTF8MB4", "hz", "x!y", "1", "big5-hkscs", "csX"},
	{"x", "zstd", "aes128gcm", "exi", "pack200-gzip", "x-unknown", "dcb", "BR", "bzip2", "xz", "lzma", "1", "x!y", "sdch"},
}

// setUnfamiliar sets the attribute of a field.
func setUnfamiliar(r *Rep, f, k int) {
	switch u := unfamiliar[f][k]; f {
	case fAccept:
		r.CT = u
	case fLang:
		r.CL = u
	case fCharset:
		r.CC = u
	default:
		r.CE = []string{u}
	}
}

func init() {
	far := func(tier string) int {
		if thorough(tier) {
			return 1025
		}
		return 257
	}
	manyRanges := func(f, m, j, q int) (rs []Rng) {
		for i := 0; i < m; i++ {
			switch {
			case i == j:
				rs = append(rs, rng([]string{"text/html", "en-US", "utf-8", "gzip"}[f], q))
			case f == fAccept:
				rs = append(rs, rng(fmt.Sprintf("image/x%d", i), 999-i%900))
			case f == fLang:
				rs = append(rs, rng([]string{"de", "nl", "it", "pt", "sv", "da", "pl", "fi"}[i%8], 999-i%900))
			case f == fCharset:
				rs = append(rs, rng(fmt.Sprintf("windows-%d", 1250+i), 999-i%900))
			default:
				rs = append(rs, rng([]string{"br", "zstd", "compress", "x-compress"}[i%4], 999-i%900))
			}
		}
		return
	}
	otherRep := func(id, f int) *Rep {
		r := plain(id)
		switch f {
		case fAccept:
			r.CT = "application/json"
		case fLang:
			r.CL = "fr"
		case fCharset:
			r.CC = "koi8-r"
		default:
			r.CE = []string{"deflate"}
		}
		return r
	}
	relevant := func(id, f int) *Rep {
		r := plain(id)
		setAttr(r, f, []int{0, 0, 0, 1}[f])
		return r
	}
	lengths := func(tier string) []int {
		if thorough(tier) {
			return scale(1 << 16)
		}
		return scale(1 << 12)
	}
	// named sets the attribute to a name, and provides the text of the range.
	named := func(r *Rep, f int, name string) string {
		switch f {
		case 0:
			name = name + "/html"
			r.CT = name
		case 1:
			name = "text/" + name
			r.CT = name
		case 2:
			r.CC = name
		}
		return name
	}
	fieldOf := []int{fAccept, fAccept, fCharset}

	extend("P01", func(tier string) []*Space {
		n := proactive.New()
		ss := scale(far(tier))
		ls := lengths(tier)
		return []*Space{
			{Name: "scale: one relevant range among many", Dims: []int{4, len(ss), len(ss), 3}, Run: func(d []int, t *T) string {
				m, j := ss[d[1]], ss[d[2]]-1
				if j >= m {
					return t.Skip()
				}
				var h Headers
				h.set(d[0], manyRanges(d[0], m, j, []int{700, 0, 1}[d[3]]))
				return acceptability(n, h, []*Rep{otherRep(0, d[0]), relevant(1, d[0])}, t)
			}},
			{Name: "scale: one acceptable representation among many", Dims: []int{4, len(ss), len(ss), 2}, Run: func(d []int, t *T) string {
				m, k := ss[d[1]], ss[d[2]]-1
				if k >= m {
					return t.Skip()
				}
				var reps []*Rep
				for i := 0; i < m; i++ {
					if i == k && d[3] == 0 {
						reps = append(reps, relevant(i, d[0]))
					} else {
						reps = append(reps, otherRep(i, d[0]))
					}
				}
				var h Headers
				h.set(d[0], manyRanges(d[0], 2, 1, 700))
				return acceptability(n, h, reps, t)
			}},
			{Name: "quoted parameters", Dims: []int{len(paramValues), 3, len(paramValues), 3, 4, 3}, Run: func(d []int, t *T) string {
				x, ok1 := paramSpelling(paramValues[d[0]], d[1])
				y, ok2 := paramSpelling(paramValues[d[2]], d[3])
				if !ok1 || !ok2 {
					return t.Skip()
				}
				r := plain(0)
				r.CT = "text/html;p=" + y
				e := "text/html;p=" + x + []string{"", ";q=0.5", ";q=0"}[d[5]]
				hh := http.Header{"Accept": {[]string{e, "image/png, " + e, e + ",image/png", "image/png;p=" + x + " , " + e + " , audio/*;p=" + y}[d[4]]}}
				t.Describe(func() any { return describe(hh, []*Rep{r}) })
				want := d[0] == d[2] && d[5] < 2
				t.Step("parameter", uint64(d[0]), uint64(d[2]), uint64(d[5]))
				rec, err := negotiateAny(n, hh, []*Rep{r})
				t.Exec(1)
				if err != nil {
					return fmt.Sprintf("unexpected error %q", err)
				}
				if m := protocol(rec, err); m != "" {
					return m
				}
				t.Outcome(map[bool]string{true: "200", false: "406"}[want])
				if got := rec.status() == rec.okStatus(); got != want {
					return fmt.Sprintf("status %d, acceptable: %v", rec.status(), want)
				}
				return ""
			}},
			{Name: "unfamiliar metadata", Dims: []int{4, 14, 6, 2}, Run: func(d []int, t *T) string {
				// what no registry knows is matched by the wildcard, and accepted without a header.
				f := d[0]
				r := plain(0)
				setUnfamiliar(r, f, d[1])
				w := "*"
				if f == fAccept {
					w = "*/*"
				}
				known := []string{"image/png", "de", "utf-16", "gzip"}[f]
				var h Headers
				h.set(f, [][]Rng{nil, {rng(w, qNone)}, {rng(w, 500)}, {rng(w, 0)}, {rng(known, qNone), rng(w, 1)}, {rng(known, qNone)}}[d[2]])
				if d[3] == 1 {
					h.set((f+1)%4, manyRanges((f+1)%4, 1, 0, 500))
				}
				return acceptability(n, h, []*Rep{r}, t)
			}},
			{Name: "scale: long names", Dims: []int{3, len(ls), 3, 3, 3}, Run: func(d []int, t *T) string {
				// the representation has the name of the range, or one with another letter.
				l := ls[d[1]]
				r := plain(0)
				a, b := longName(l, d[2], 'b'), longName(l, d[2], 'c')
				v := named(r, d[0], a)
				if d[3] == 1 {
					named(r, d[0], b)
				} else if d[3] == 2 {
					named(r, d[0], a+"a")
				}
				var h Headers
				h.set(fieldOf[d[0]], []Rng{rng(v, []int{qNone, 0, 500}[d[4]])})
				return acceptability(n, h, []*Rep{r}, t)
			}},
			{Name: "scale: many codings of a representation", Dims: []int{len(ss), len(ss), 2}, Run: func(d []int, t *T) string {
				m, j := ss[d[0]], ss[d[1]]-1
				if j >= m {
					return t.Skip()
				}
				r := plain(0)
				for i := 0; i < m; i++ {
					r.CE = append(r.CE, []string{"gzip", "identity", "deflate"}[i%3])
				}
				if d[2] == 0 {
					r.CE[j] = "br"
				}
				return acceptability(n, Headers{Enc: []Rng{rng("gzip", 700), rng("deflate", 1)}}, []*Rep{r}, t)
			}},
			{Name: "scale: many parameters of a range", Dims: []int{len(ss), len(ss), 3}, Run: func(d []int, t *T) string {
				m, j := ss[d[0]], ss[d[1]]-1
				if j >= m {
					return t.Skip()
				}
				r := plain(0)
				r.CT = "text/html"
				x := rng("text/html", 500)
				for i := 0; i < m; i++ {
					x.P = append(x.P, [2]string{fmt.Sprintf("p%d", i), "v"})
					switch {
					case i != j || d[2] == 0:
						r.CT += fmt.Sprintf(";p%d=v", i)
					case d[2] == 1:
						r.CT += fmt.Sprintf(";p%d=w", i)
					}
				}
				return acceptability(n, Headers{Accept: []Rng{x}}, []*Rep{r}, t)
			}},
		}
	})

	extend("P02", func(tier string) []*Space {
		n := proactive.New(proactive.DisableNotAcceptableRepresentation())
		top := 130
		if thorough(tier) {
			top = 1025
		}
		ss := scale(top)
		magnitudes := []int{0, 1, 2, 7, 8, 9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 32767, 32768, 65535, 65536, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1000000, 9999999, 10000000, 1<<31 - 2, 1<<31 - 1}
		sizes := scale(1 << 14)
		if thorough(tier) {
			sizes = scale(1 << 18)
		}
		ls := lengths(tier)
		return []*Space{
			{Name: "scale: a single better one among many", Dims: []int{criteriaCount, 2, len(ss), len(ss)}, Run: func(d []int, t *T) string {
				m, k := ss[d[2]], ss[d[3]]-1
				if k >= m || !thorough(tier) && m > 33 && d[0]%3 != (m+k)%3 {
					return t.Skip()
				}
				var reps []*Rep
				var sq []int
				for i := 0; i < m; i++ {
					lv := 1 + d[1]
					if i == k {
						lv = 0
					}
					r, s := gradedRep(i, d[0], lv)
					reps, sq = append(reps, r), append(sq, s)
				}
				return bestChoice(n, criteriaHeaders, reps, sq, t)
			}},
			{Name: "scale: many different ones", Dims: []int{3, len(ss), len(ss), 2}, Run: func(d []int, t *T) string {
				m, k := ss[d[1]], ss[d[2]]-1
				if k >= m || d[0] > 0 && m > 130 {
					return t.Skip()
				}
				var reps []*Rep
				sq := thousands(m)
				var h Headers
				for i := 0; i < m; i++ {
					r := plain(i)
					rank := (i - k + m) % m // the k-th is the best
					if d[3] == 1 {
						rank = (k - i + m) % m
					}
					switch d[0] {
					case 0:
						r.Body = bodyFor(i, 8+rank)
					case 1:
						sq[i] = 1000 - rank*999/m
					case 2:
						r.CT = fmt.Sprintf("application/x%d", i)
						h.Accept = append(h.Accept, rng(r.CT, 1000-rank*999/m))
					}
					reps = append(reps, r)
				}
				return bestChoice(n, h, reps, sq, t)
			}},
			{Name: "unfamiliar metadata", Dims: []int{4, 14, 14, 3, 3}, Run: func(d []int, t *T) string {
				f := d[0]
				r1, r2 := plain(0), plain(1)
				setUnfamiliar(r1, f, d[1])
				known := []string{"image/png", "de", "utf-16", "gzip"}[f]
				if d[2] < 13 {
					setUnfamiliar(r2, f, d[2])
					r2.Body = bodyFor(1, 7)
				} else {
					setAttr(r2, f, 0)
					switch f {
					case fAccept:
						r2.CT = known
					case fLang:
						r2.CL = known
					case fCharset:
						r2.CC = known
					default:
						r2.CE = []string{known}
					}
				}
				w := "*"
				if f == fAccept {
					w = "*/*"
				}
				var h Headers
				h.set(f, []Rng{rng(known, []int{400, 500, 600}[d[3]]), rng(w, 500)})
				reps := []*Rep{r1, r2}
				if d[4] == 1 {
					reps = []*Rep{r2, r1}
				} else if d[4] == 2 {
					h.set(f, nil)
				}
				return bestChoice(n, h, reps, thousands(2), t)
			}},
			// every stage of the algorithm alone, with values that repeat in cycles.
			{Name: "scale: cycles at one stage", Dims: []int{8, 64, 7, 7}, Run: func(d []int, t *T) string {
				count, period, shift := d[1]+1, d[2]+1, d[3]
				if shift >= period {
					return t.Skip()
				}
				var h Headers
				letters := []string{"a", "b", "c", "d", "e", "f", "g"}
				langs := []string{"en", "fr", "de", "es", "it", "nl", "sv"}
				codings := []string{"gzip", "deflate", "compress", "br", "zstd", "x-gzip", "x-compress"}
				for v := 0; v < period; v++ {
					q := 300 + 100*v
					switch d[0] {
					case 1:
						h.Accept = append(h.Accept, rng("text/"+letters[v], q))
					case 2:
						h.Lang = append(h.Lang, rng(langs[v], q))
					case 3:
						h.Lang = append(h.Lang, rng(langs[v], qNone))
					case 5:
						h.Charset = append(h.Charset, rng("x-"+letters[v], q))
					case 6:
						h.Enc = append(h.Enc, rng(codings[v], q))
					}
				}
				sq := thousands(count)
				var reps []*Rep
				for i := 0; i < count; i++ {
					v := (i + shift) % period
					r := plain(i)
					switch d[0] {
					case 0:
						sq[i] = 300 + 100*v
					case 1:
						r.CT = "text/" + letters[v]
					case 2, 3:
						r.CL = langs[v]
					case 4:
						r.CT = fmt.Sprintf("text/html;level=%d", v)
					case 5:
						r.CC = "x-" + letters[v]
					case 6:
						r.CE = []string{codings[v]}
					case 7:
						r.Body = bodyFor(i, 10+v)
					}
					reps = append(reps, r)
				}
				return bestChoice(n, h, reps, sq, t)
			}},
			{Name: "scale: levels", Dims: []int{len(magnitudes), len(magnitudes), 2}, Run: func(d []int, t *T) string {
				r1, r2 := plain(0), plain(1)
				r1.CT = fmt.Sprintf("text/html;level=%d", magnitudes[d[0]])
				r2.CT = fmt.Sprintf("text/html;level=%d", magnitudes[d[1]])
				var h Headers
				if d[2] == 1 {
					h.Accept = []Rng{rng("text/*", qNone), rng("image/png", 900)}
				}
				return bestChoice(n, h, []*Rep{r1, r2}, thousands(2), t)
			}},
			{Name: "scale: lengths", Dims: []int{len(sizes), 4, 2}, Run: func(d []int, t *T) string {
				a := sizes[d[0]]
				b := []int{a - 1, a + 1, a * 2, a * 10}[d[1]]
				if b < 5 || a < 5 {
					return t.Skip()
				}
				r1, r2 := plain(0), plain(1)
				r1.Body, r2.Body = bodyFor(0, a), bodyFor(1, b)
				if d[2] == 1 {
					r1.Body, r2.Body = r2.Body, r1.Body
				}
				return bestChoice(n, Headers{}, []*Rep{r1, r2}, thousands(2), t)
			}},
			{Name: "scale: long names", Dims: []int{3, len(ls), 3, 2}, Run: func(d []int, t *T) string {
				l := ls[d[1]]
				r1, r2 := plain(0), plain(1)
				a, b := named(r1, d[0], longName(l, d[2], 'b')), named(r2, d[0], longName(l, d[2], 'c'))
				var h Headers
				h.set(fieldOf[d[0]], []Rng{rng(a, []int{700, 800}[d[3]]), rng(b, []int{800, 700}[d[3]])})
				return bestChoice(n, h, []*Rep{r1, r2}, thousands(2), t)
			}},
		}
	})

	extend("P03", func(tier string) []*Space {
		ss := scale(far(tier))
		var ns [8]negotiator.Negotiator
		for m := range ns {
			ns[m] = strictNegotiator(strictFlags(m), proactive.DisableNotAcceptableRepresentation())
		}
		return []*Space{{Name: "scale: many representations and ranges", Dims: []int{8, 4, 2, len(ss), len(ss)}, Run: func(d []int, t *T) string {
			m, k := ss[d[3]], ss[d[4]]-1
			if k >= m || !thorough(tier) && m > 33 && (d[0]+m+k)%4 != 0 {
				return t.Skip()
			}
			f := d[1]
			var reps []*Rep
			var h Headers
			if d[2] == 0 {
				// nothing matches the header, and one of many satisfies the other one.
				for i := 0; i < m; i++ {
					r := otherRep(i, f)
					if i == k {
						setAttr(r, (f+1)%4, []int{0, 0, 0, 1}[(f+1)%4])
					} else {
						q := otherRep(i, (f+1)%4)
						switch (f + 1) % 4 {
						case fAccept:
							r.CT = q.CT
						case fLang:
							r.CL = q.CL
						case fCharset:
							r.CC = q.CC
						default:
							r.CE = q.CE
						}
					}
					reps = append(reps, r)
				}
				h.set(f, manyRanges(f, 1, 0, qNone))
				h.set((f+1)%4, manyRanges((f+1)%4, 1, 0, 500))
			} else {
				reps = []*Rep{otherRep(0, f), otherRep(1, f)}
				h.set(f, manyRanges(f, m, k, 700))
			}
			return strictness(ns[:], d[0], h, reps, t)
		}}}
	})

	extend("P04", func(tier string) []*Space {
		def := proactive.New()
		types := []string{"application/json", "application/xml", "application/yaml"}
		ss := scale(far(tier))
		return []*Space{
			{Name: "scale: representations", Dims: []int{len(ss), 3}, Run: func(d []int, t *T) string {
				h := Headers{Accept: []Rng{[]Rng{rng("audio/ogg", qNone), rng("application/xml", qNone), rng("application/yaml", qNone)}[d[1]]}}
				return notAcceptableList(def, h, resource(ss[d[0]]), types, "application/json", t)
			}},
			{Name: "scale: ranges", Dims: []int{len(ss), len(ss), 3}, Run: func(d []int, t *T) string {
				m, j := ss[d[0]], ss[d[1]]-1
				if j >= m {
					return t.Skip()
				}
				rs := manyRanges(fAccept, m, -1, 0)
				rs[j] = rng(types[d[2]], 1)
				return notAcceptableList(def, Headers{Accept: rs}, resource(2), types, "application/json", t)
			}},
			{Name: "scale: formats", Dims: []int{len(ss), len(ss)}, Run: func(d []int, t *T) string {
				m, j := ss[d[0]], ss[d[1]]-1
				if j >= m || m > 130 {
					return t.Skip()
				}
				var ts []string
				var cs []representation.ListConstructor
				for i := 0; i < m; i++ {
					ct := []string{"application/xml", "text/html", "text/yaml"}[i%3]
					if i == j {
						ct = "application/yaml"
					}
					ts = append(ts, ct)
					cs = append(cs, newList(ct, nil))
				}
				n := proactive.New(proactive.Representations(cs...))
				return notAcceptableList(n, Headers{Accept: []Rng{rng("application/yaml", 1)}}, resource(2), ts, "application/json", t)
			}},
		}
	})

	extend("T01", func(tier string) []*Space {
		ss := scale(far(tier))
		return []*Space{
			{Name: "scale: directives", Dims: []int{len(ss), len(ss), len(directives), 2, 2}, Run: func(d []int, t *T) string {
				m, j := ss[d[0]], ss[d[1]]-1
				if j >= m {
					return t.Skip()
				}
				var ds []string
				for i := 0; i < m; i++ {
					ds = append(ds, []string{"trans", "vlist", "x-ext"}[i%3])
				}
				x := directives[d[2]]
				ds[j] = x.v
				hh := http.Header{"Negotiate": {strings.Join(ds, ", ")}}
				if d[3] == 1 {
					hh["Negotiate"] = ds
				}
				reps := []*Rep{plain(0), plain(1)}
				reps[1].Body = bodyFor(1, []int{20, 200}[d[4]])
				list := &Rep{ID: 50, CT: "application/x-list", Body: bodyFor(50, 40)}
				n := transparent.New(transparent.RVSA(pickIndex(1)), transparent.ListRepresentation(func(...representation.Representation) representation.Representation { return list }))
				t.Describe(func() any { return describe(hh, reps) })
				want := none
				if x.choose && (!x.guess || d[4] == 0) {
					want = 1
				}
				t.Step("directives", uint64(m), uint64(j), uint64(d[2]), uint64(d[4]))
				rec, err := negotiateAny(n, hh, reps)
				t.Exec(1)
				t.Outcome(fmt.Sprintf("choice %d", want))
				return tcnResponse(rec, err, reps, want, list)
			}},
			{Name: "scale: variants", Dims: []int{len(ss), len(ss), 3}, Run: func(d []int, t *T) string {
				m, k := ss[d[0]], ss[d[1]]-1
				if k >= m {
					return t.Skip()
				}
				hh := http.Header{"Negotiate": {[]string{"*", "guess-small", "trans"}[d[2]]}}
				var reps []*Rep
				for i := 0; i < m; i++ {
					r := plain(i)
					r.Loc = mustURL(fmt.Sprintf("http://h.example/a/v%d", i))
					r.Body = bodyFor(i, 20)
					reps = append(reps, r)
				}
				n := transparent.New(transparent.RVSA(pickIndex(k)), transparent.MaximumVariantListSize(m))
				t.Describe(func() any { return describe(hh, reps) })
				want := k
				if d[2] == 2 {
					want = none
				}
				t.Step("variants", uint64(m), uint64(k), uint64(d[2]))
				rec, err := negotiateAny(n, hh, reps)
				t.Exec(1)
				t.Outcome(fmt.Sprintf("choice %v", want != none))
				return tcnResponse(rec, err, reps, want, nil)
			}},
		}
	})

	extend("T02", func(tier string) []*Space {
		ss := scale(far(tier))
		ls := lengths(tier)
		return []*Space{
			{Name: "scale: one relevant range among many", Dims: []int{3, len(ss), len(ss), 2, 3}, Run: func(d []int, t *T) string {
				m, j := ss[d[1]], ss[d[2]]-1
				if j >= m {
					return t.Skip()
				}
				q := []int{700, 0}[d[3]]
				var h Headers
				h.set(d[0], manyRanges(d[0], m, j, q))
				return against(h, nil, &variant{Rep: relevant(0, d[0]), sq: 1000}, q, []int{2, 3, 1}[d[4]], (m+j)%2, t)
			}},
			{Name: "unfamiliar metadata", Dims: []int{3, 14, 4, gradedN, 2}, Run: func(d []int, t *T) string {
				f := d[0]
				v := vplain(0, 1000)
				setUnfamiliar(v.Rep, f, d[1])
				w := "*"
				if f == fAccept {
					w = "*/*"
				}
				known := []string{"image/png", "de", "utf-16"}[f]
				var h Headers
				h.set(f, [][]Rng{nil, {rng(w, 500)}, {rng(known, 800), rng(w, 500)}, {rng(known, 500)}}[d[2]])
				return against(h, nil, v, []int{1000, 500, 500, 0}[d[2]], d[3], d[4], t)
			}},
			// every dimension alone, with values that repeat in cycles.
			{Name: "scale: cycles in one dimension", Dims: []int{5, 64, 7, 7, 2}, Run: func(d []int, t *T) string {
				count, period, shift := d[1]+1, d[2]+1, d[3]
				if shift >= period {
					return t.Skip()
				}
				var h Headers
				var fs []feat
				letters := []string{"a", "b", "c", "d", "e", "f", "g"}
				langs := []string{"en", "fr", "de", "es", "it", "nl", "sv"}
				for v := 0; v < period; v++ {
					q := 300 + 100*v
					switch d[0] {
					case 1:
						h.Accept = append(h.Accept, rng("text/"+letters[v], q))
					case 2:
						h.Lang = append(h.Lang, rng(langs[v], q))
					case 3:
						h.Charset = append(h.Charset, rng("x-"+letters[v], q))
					case 4:
						fs = append(fs, feat{'e', letters[v], ""})
					}
				}
				// the last value is only known by a wildcard.
				if d[4] == 1 {
					switch d[0] {
					case 1:
						h.Accept[period-1].V = "text/*"
					case 2:
						h.Lang[period-1].V = "*"
					case 3:
						h.Charset[period-1].V = "*"
					default:
						return t.Skip()
					}
				}
				var vs []*variant
				for i := 0; i < count; i++ {
					v := (i + shift) % period
					r := vplain(i, 1000)
					switch d[0] {
					case 0:
						r.sq = 300 + 100*v
					case 1:
						r.CT = "text/" + letters[v]
					case 2:
						r.CL = langs[v]
					case 3:
						r.CC = "x-" + letters[v]
					case 4:
						r.elems = []elem{{ps: []pred{{op: 'e', tag: letters[v]}}, t: 300 + 100*v, f: 0}}
					}
					vs = append(vs, r)
				}
				return rvsaCase(h, fs, vs, t)
			}},
			{Name: "scale: variants", Dims: []int{2, len(ss), len(ss), 2}, Run: func(d []int, t *T) string {
				m, k := ss[d[1]], ss[d[2]]-1
				if k >= m || m > 130 {
					return t.Skip()
				}
				var vs []*variant
				for i := 0; i < m; i++ {
					v := vplain(i, 500)
					if i == k {
						v.sq = 501
					} else if d[3] == 1 {
						v.sq = i % 500
					}
					if d[0] == 1 {
						v.CT = fmt.Sprintf("text/x%d", i%7)
					}
					vs = append(vs, v)
				}
				var h Headers
				if d[0] == 1 {
					for i := 0; i < 7; i++ {
						h.Accept = append(h.Accept, rng(fmt.Sprintf("text/x%d", i), qNone))
					}
				}
				return rvsaCase(h, nil, vs, t)
			}},
			{Name: "scale: long names", Dims: []int{3, len(ls), 3, 3}, Run: func(d []int, t *T) string {
				l := ls[d[1]]
				v := vplain(0, 1000)
				a, b := longName(l, d[2], 'b'), longName(l, d[2], 'c')
				x := named(v.Rep, d[0], a)
				q := 700
				if d[3] == 1 {
					named(v.Rep, d[0], b)
					q = 0
				} else if d[3] == 2 {
					named(v.Rep, d[0], a+"a")
					q = 0
				}
				var h Headers
				h.set(fieldOf[d[0]], []Rng{rng(x, 700)})
				return against(h, nil, v, q, []int{2, 3, 3}[d[3]], l%2, t)
			}},
		}
	})

	featureNames := []string{"dpi", "pix-x", "pix-y", "Pix-X", "UA-media", "paper-size", "a.b", "a.B", "x+y", "1.0", "1-0", "10", "x_y", "x-", "-x", ".", "+", "-", "a4", "na-letter"}

	extend("T03", func(tier string) []*Space {
		ss := scale(far(tier))
		ls := lengths(tier)
		numbers := append([]int{0}, scale(1<<20)...)
		for _, n := range []int{1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, math.MaxInt64 - 1} {
			numbers = append(numbers, n)
		}
		num := func(n int) string { return fmt.Sprint(n) }
		mk := func(es ...elem) *variant { return &variant{Rep: plain(0), sq: 1000, elems: es} }
		// measuredAs compares a variant with a spelled feature list of quality q.
		measuredAs := func(fs []feat, v *variant, q int, t *T) string {
			for _, order := range []int{0, 1} {
				hh := http.Header{}
				featHeader(hh, fs)
				r := v.Rep
				r.SQ = 1
				c := plain(1)
				c.SQ = float32(q+1-2*order) / 1000
				reps := []*Rep{r, c}
				t.Describe(func() any { return describe(hh, reps) })
				t.Step("bag", uint64(q), uint64(order))
				got, err := transparent.RVSA1().Choose(request(hh, nil), asReps(reps)...)
				t.Exec(1)
				if err != nil {
					return fmt.Sprintf("unexpected error %q", err)
				}
				t.Outcome(fmt.Sprintf("holds %v", q == 900))
				if want := reps[1-order]; got != any(want) {
					return fmt.Sprintf("chose the other variant: the quality of the first one is %d thousandths", q)
				}
			}
			return ""
		}
		measured := func(fs []feat, v *variant, t *T) string {
			x := featuresOf(fs)
			q := 1000
			for _, e := range v.elems {
				q = q * x.factor(e) / 1000
			}
			// below and above the quality: both have to be told apart.
			if m := against(Headers{}, fs, v, q, 2, 0, t); m != "" {
				return m
			}
			return against(Headers{}, fs, v, q, 3, 1, t)
		}
		return []*Space{
			{Name: "scale: many expressions", Dims: []int{len(ss), len(ss), 6}, Run: func(d []int, t *T) string {
				m, j := ss[d[0]], ss[d[1]]-1
				if j >= m {
					return t.Skip()
				}
				var fs []feat
				for i := 0; i < m; i++ {
					fs = append(fs, feat{[]byte{'e', '!', '='}[i%3], fmt.Sprintf("f%d", i), "v"})
				}
				switch d[2] {
				case 0:
					fs[j] = feat{'e', "tables", ""}
				case 1:
					fs[j] = feat{'!', "tables", ""}
				case 2:
					fs[j] = feat{'=', "tables", "72"}
				case 3: // many values of the same feature
					for i := range fs {
						fs[i] = feat{'=', "tables", "x" + num(i)}
					}
					fs[j] = feat{'=', "tables", "72"}
				case 4: // the maximum decides
					for i := range fs {
						fs[i] = feat{'=', "tables", num(i % 70)}
					}
					fs[j] = feat{'=', "tables", "72"}
				}
				p := []pred{{op: 'e', tag: "tables"}, {op: '!', tag: "tables"}, {op: '=', tag: "tables", val: "72"}, {op: '=', tag: "tables", val: "72"}, {op: '[', tag: "tables", lo: 71, hi: 73}, {op: 'e', tag: "tables"}}[d[2]]
				return measured(fs, mk(elem{ps: []pred{p}, t: 800, f: 300}), t)
			}},
			{Name: "scale: many elements", Dims: []int{len(ss), len(ss), 3}, Run: func(d []int, t *T) string {
				m, j := ss[d[0]], ss[d[1]]-1
				if j >= m {
					return t.Skip()
				}
				fs := []feat{{'e', "tables", ""}, {'!', "frames", ""}}
				var es []elem
				for i := 0; i < m; i++ {
					es = append(es, elem{ps: []pred{{op: 'e', tag: "tables"}}, t: 1000, f: 500})
				}
				switch d[2] {
				case 0:
					es[j] = elem{ps: []pred{{op: 'e', tag: "frames"}}, t: 1000, f: 600}
				case 1:
					es[j] = elem{ps: []pred{{op: '!', tag: "frames"}}, t: 700, f: 1000}
				case 2: // elements that double and halve
					for i := range es {
						es[i].t = []int{2000, 500}[i%2]
					}
					if m%2 == 1 {
						es[m-1].t = 900
					}
					es[j].f = 1
				}
				return measured(fs, mk(es...), t)
			}},
			{Name: "scale: many predicates of a bag", Dims: []int{len(ss), len(ss), 3}, Run: func(d []int, t *T) string {
				m, j := ss[d[0]], ss[d[1]]-1
				if j >= m {
					return t.Skip()
				}
				fs := []feat{{'e', "tables", ""}, {'=', "dpi", "72"}}
				e := elem{bag: true, t: 900, f: 400}
				for i := 0; i < m; i++ {
					e.ps = append(e.ps, pred{op: []byte{'e', '=', '['}[i%3], tag: "dpj", val: "72", lo: 70, hi: 80})
				}
				if d[2] < 2 {
					e.ps[j] = []pred{{op: 'e', tag: "tables"}, {op: '[', tag: "dpi", lo: 72, hi: -1}}[d[2]]
				}
				return measured(fs, mk(e), t)
			}},
			{Name: "scale: numbers", Dims: []int{len(numbers), 6, 6}, Run: func(d []int, t *T) string {
				n := numbers[d[0]]
				lo := []int{-1, n - 1, n, n + 1, 0, n / 2}[d[1]]
				hi := []int{-1, n - 1, n, n + 1, 0, n * 2}[d[2]]
				if lo < 0 && d[1] > 0 || hi < 0 && d[2] > 0 {
					return t.Skip()
				}
				fs := []feat{{'=', "dpi", num(n)}, {'=', "dpi", "x"}}
				return measured(fs, mk(elem{ps: []pred{{op: '[', tag: "dpi", lo: lo, hi: hi}}, t: 800, f: 300}), t)
			}},
			{Name: "scale: two numbers", Dims: []int{len(numbers), len(numbers), 2}, Run: func(d []int, t *T) string {
				// the bigger one is what the range is about.
				a, b := numbers[d[0]], numbers[d[1]]
				fs := []feat{{'=', "dpi", num(a)}, {'=', "dpi", num(b)}}
				p := pred{op: '[', tag: "dpi", lo: max(a, b), hi: -1}
				if d[2] == 1 {
					p.lo, p.hi = -1, min(a, b)
				}
				return measured(fs, mk(elem{ps: []pred{p}, t: 800, f: 300}), t)
			}},
			{Name: "spelling of tags and values", Dims: []int{len(featureNames), len(featureNames), 5, 4, 3}, Run: func(d []int, t *T) string {
				// tags and values are tokens: RFC 2295 6.1, RFC 2534.
				a, b := featureNames[d[0]], featureNames[d[1]]
				var fs []feat
				var p pred
				switch d[2] {
				case 0:
					fs, p = []feat{{'e', a, ""}}, pred{op: 'e', tag: b}
				case 1:
					fs, p = []feat{{'!', a, ""}}, pred{op: '!', tag: b}
				case 2:
					fs, p = []feat{{'=', "ua-media", a}}, pred{op: '=', tag: "ua-media", val: b}
				case 3:
					fs, p = []feat{{'=', a, "na-letter"}}, pred{op: 'n', tag: b, val: "na-letter.1"}
				case 4:
					fs, p = []feat{{'=', a, "1024"}}, pred{op: '[', tag: b, lo: 1024, hi: 1024}
				}
				e := elem{ps: []pred{p}, t: 800, f: 300}
				switch d[3] {
				case 1:
					e.bag = true
				case 2:
					e.bag, e.ps = true, []pred{{op: 'e', tag: "x-no"}, p}
				case 3:
					e.bag, e.ps = true, []pred{p, {op: '=', tag: "pix-x", val: "x.no"}}
				}
				switch d[4] {
				case 1:
					fs = append(fs, feat{'e', "x-other", ""})
				case 2:
					fs = append([]feat{{'=', "x.other", "y-y"}}, fs...)
				}
				return measured(fs, mk(e), t)
			}},
			{Name: "spacing of a bag", Dims: []int{5, 5, 5, 5, 4}, Run: func(d []int, t *T) string {
				sp := []string{"", " ", "  ", "\t", " \t  "}
				if d[1] == 0 || d[2] == 0 {
					return t.Skip()
				}
				r := plain(0)
				ps := []string{"frames", "!tables", "dpi=[10-90]"}
				r.CF = []string{"[" + sp[d[0]] + ps[0] + sp[d[1]] + ps[1] + sp[d[2]] + ps[2] + sp[d[3]] + "];+0.9-0.5"}
				fs := []feat{{'e', []string{"frames", "other", "other", "other"}[d[4]], ""}}
				holds := d[4] < 3
				if d[4] == 1 {
					fs = append(fs, feat{'!', "tables", ""})
				} else if d[4] == 2 {
					fs = append(fs, feat{'=', "dpi", "50"})
				}
				q := 500
				if holds {
					q = 900
				}
				v := &variant{Rep: r, sq: 1000}
				return measuredAs(fs, v, q, t)
			}},
			{Name: "scale: long names", Dims: []int{3, len(ls), 3, 2}, Run: func(d []int, t *T) string {
				l := ls[d[1]]
				a, b := longName(l, d[2], 'b'), longName(l, d[2], 'c')
				if d[3] == 0 {
					b = a
				}
				var f feat
				var p pred
				switch d[0] {
				case 0:
					f, p = feat{'e', a, ""}, pred{op: 'e', tag: b}
				case 1:
					f, p = feat{'=', "dpi", a}, pred{op: '=', tag: "dpi", val: b}
				case 2:
					f, p = feat{'!', a, ""}, pred{op: '!', tag: b}
				}
				return measured([]feat{f}, mk(elem{ps: []pred{p}, t: 800, f: 300}), t)
			}},
			{Name: "scale: every pair of factors in hundredths", Dims: []int{251, 251}, Run: func(d []int, t *T) string {
				fs := []feat{{'e', "tables", ""}}
				v := mk(elem{ps: []pred{{op: 'e', tag: "tables"}}, t: d[0] * 10, f: qNone}, elem{ps: []pred{{op: 'e', tag: "frames"}}, t: 1000, f: d[1] * 10})
				v.sq = 100
				q := d[0] * d[1] / 100
				return against(Headers{}, fs, v, q, 2+(d[0]+d[1])%2, d[0]%2, t)
			}},
		}
	})

	extend("T05", func(tier string) []*Space {
		n := transparent.New(transparent.RVSA(pickIndex(0)))
		check := func(a, b string, want bool, t *T) string {
			ua, err := url.Parse(a)
			must(err)
			ub, err := url.Parse(b)
			must(err)
			r := plain(0)
			r.Loc = *ub
			t.Describe(func() any { return map[string]any{"resource": a, "variant": b} })
			t.Step("neighbor", hashStr(a), hashStr(b))
			rec, err := negotiate(n, request(http.Header{"Negotiate": {"1.0"}}, ua), false, asReps([]*Rep{r, plain(1)})...)
			t.Exec(1)
			t.Outcome(fmt.Sprintf("neighbor %v", want))
			if err != nil {
				return fmt.Sprintf("unexpected error %q", err)
			}
			if got := rec.status() == http.StatusOK; got != want {
				return fmt.Sprintf("status %d, neighbor per model: %v", rec.status(), want)
			}
			return ""
		}
		ls := lengths(tier)
		// spellings of a byte in a directory.
		spell := func(b, k int) (string, bool) {
			raw := string(rune(b))
			switch k {
			case 0:
				return fmt.Sprintf("%%%02X", b), true
			case 1:
				return fmt.Sprintf("%%%02x", b), true
			}
			return raw, b > 0x20 && b < 0x7f && !strings.Contains("/?#%", raw)
		}
		return []*Space{
			{Name: "scale: every byte in every spelling", Dims: []int{256, 3, 256, 3}, Run: func(d []int, t *T) string {
				a, ok := spell(d[0], d[1])
				b, ok2 := spell(d[2], d[3])
				if !ok || !ok2 || !thorough(tier) && d[0] != d[2] && (d[0]^d[2])&(d[0]^d[2]-1) != 0 {
					return t.Skip() // quick: equal bytes, and those that differ by one bit
				}
				return check("http://h.example/x"+a+"y/r", "http://h.example/x"+b+"y/v", d[0] == d[2], t)
			}},
			{Name: "scale: depth", Dims: []int{66, 66, 3}, Run: func(d []int, t *T) string {
				seg := []string{"s/", "%2F/", "a.b/"}[d[2]]
				return check("http://h.example/"+strings.Repeat(seg, d[0])+"r", "http://h.example/"+strings.Repeat(seg, d[1])+"v", d[0] == d[1], t)
			}},
			{Name: "scale: long segments and hosts", Dims: []int{len(ls), 3, 3}, Run: func(d []int, t *T) string {
				l := ls[d[0]]
				a, b := longName(l, d[1], 'b'), longName(l, d[1], 'c')
				switch d[2] {
				case 0:
					if m := check("http://h.example/"+a+"/r", "http://h.example/"+a+"/v", true, t); m != "" {
						return m
					}
					return check("http://h.example/"+a+"/r", "http://h.example/"+b+"/v", false, t)
				case 1:
					if m := check("http://"+a+"/a/r", "http://"+strings.ToUpper(a)+"/a/v", true, t); m != "" {
						return m
					}
					return check("http://"+a+"/a/r", "http://"+b+"/a/v", false, t)
				}
				return check("http://h.example/a/"+a, "http://h.example/a/"+b, true, t)
			}},
			{Name: "scale: ports", Dims: []int{2, 2, 66, 66}, Run: func(d []int, t *T) string {
				ports := append([]int{0, 80, 443, 8080, 8443, 65535}, scale(1<<15)...)
				if d[2] >= len(ports) || d[3] >= len(ports) {
					return t.Skip()
				}
				s := []string{"http", "https"}
				pa, pb := ports[d[2]], ports[d[3]]
				text := func(sc, p int) string {
					if p == 0 {
						return ""
					}
					return fmt.Sprintf(":%d", p)
				}
				eff := func(sc, p int) int {
					if p == 0 {
						return []int{80, 443}[sc]
					}
					return p
				}
				want := d[0] == d[1] && eff(d[0], pa) == eff(d[1], pb)
				return check(s[d[0]]+"://h.example"+text(d[0], pa)+"/a/r", s[d[1]]+"://h.example"+text(d[1], pb)+"/a/v", want, t)
			}},
		}
	})

	extend("R01", func(tier string) []*Space {
		ss := append([]int{0}, scale(far(tier))...)
		return []*Space{{Name: "scale: representations", Dims: []int{len(ss), 3}, Run: func(d []int, t *T) string {
			reps := resource(ss[d[0]])
			ct := []string{"application/json", "application/xml", "application/yaml"}[d[1]]
			n := reactive.New(reactive.Representation(newList(ct, nil)))
			if d[1] == 0 {
				n = reactive.New()
			}
			t.Describe(func() any { return map[string]any{"n": len(reps), "type": ct} })
			rec, err := negotiateAny(n, http.Header{}, reps)
			t.Exec(1)
			t.Step("list", uint64(len(reps)), uint64(d[1]))
			t.Outcome(ct)
			if err != nil {
				return fmt.Sprintf("unexpected error %q", err)
			}
			if m := protocol(rec, err); m != "" {
				return m
			}
			if len(reps) == 0 {
				if rec.status() != 204 || len(rec.body) != 0 {
					return fmt.Sprintf("status %d with %d bytes", rec.status(), len(rec.body))
				}
				return ""
			}
			if rec.status() != 300 {
				return fmt.Sprintf("status %d", rec.status())
			}
			return checkList(ct, rec.body, reps)
		}}}
	})

	extend("P09", func(tier string) []*Space {
		top := 10000
		if thorough(tier) {
			top = 100000
		}
		times := scale(top)
		tokens := []string{"a", "*", "/", ";", ",", "=", "q", "q=", ";q=1", ";q=0.5", "\"", "\\", "-", "a-", "[", "]", "!", "+", "a/b,", "en,", "*/*,", "a=[1-2] ", "é", "\x80", " ", "\t", "(", "%", "0", "1", "0.", "9"}
		pre := []string{"", "text/html;q=0.", "en;q=", "tag=[", "a/"}
		ns := []negotiator.Negotiator{proactive.New(), proactive.New(proactive.DisableStrictMode(), proactive.DisableNotAcceptableRepresentation()), transparent.New(), reactive.New()}
		return []*Space{{Name: "scale: repeated tokens", Dims: []int{len(headerNames) + 5, len(pre), len(tokens), len(times)}, Run: func(d []int, t *T) string {
			if !thorough(tier) && times[d[3]] > 300 && (d[0]+d[1]+d[2]+d[3])%8 != 0 {
				return t.Skip()
			}
			s := pre[d[1]] + strings.Repeat(tokens[d[2]], times[d[3]])
			r := plain(1)
			r.CT, r.CL, r.CC, r.CE, r.CF = "text/html;level=1", "en-US", "utf-8", []string{"gzip"}, []string{"tag", "[tag=[0-9] !a]"}
			h := http.Header{"Negotiate": {"*"}, "Accept": {"text/html"}, "Accept-Language": {"en"}, "Accept-Features": {"tag=5"}, "Accept-Charset": {"utf-8"}}
			switch k := d[0] - len(headerNames); k {
			case 0:
				r.CT = s
			case 1:
				r.CL = s
			case 2:
				r.CC = s
			case 3:
				r.CE = []string{s}
			case 4:
				r.CF = []string{s}
			default:
				h[headerNames[d[0]]] = []string{s}
			}
			t.Describe(func() any {
				return map[string]any{"where": d[0], "prefix": pre[d[1]], "token": tokens[d[2]], "times": times[d[3]]}
			})
			return total(ns, h, nil, []representation.Representation{r, plain(2)}, t)
		}, Slow: true}}
	})

	extend("S01", func(tier string) []*Space {
		top := 1 << 18
		if thorough(tier) {
			top = 1 << 23
		}
		ss := scale(top)
		cs := [][]string{nil, {"gzip"}, {"deflate"}, {"compress"}, {"gzip", "deflate", "compress"}, {"identity"}}
		return []*Space{
			{Name: "scale: lengths of text", Dims: []int{len(ss), 3, len(cs), 2}, Run: func(d []int, t *T) string {
				doc := Doc{Name: noise(ss[d[0]]), Count: ss[d[0]]}
				if d[3] == 1 {
					doc.Name = strings.Repeat("a", ss[d[0]])
				}
				return roundTrip(&doc, docTypes[d[1]], cs[d[2]], t)
			}},
			{Name: "scale: number of elements", Dims: []int{len(scale(4097)), 3, len(cs)}, Run: func(d []int, t *T) string {
				doc := Doc{Name: "n"}
				for i := 0; i < scale(4097)[d[0]]; i++ {
					doc.Tags = append(doc.Tags, fmt.Sprintf("t%d", i))
				}
				return roundTrip(&doc, docTypes[d[1]], cs[d[2]], t)
			}},
			{Name: "scale: number of codings", Dims: []int{len(scale(130)), 3, 4}, Run: func(d []int, t *T) string {
				var ce []string
				for i := 0; i < scale(130)[d[0]]; i++ {
					ce = append(ce, docCodings[(i*(d[2]+1)+d[2])%4])
				}
				return roundTrip(&docs[1], docTypes[d[1]], ce, t)
			}},
			{Name: "scale: numbers", Dims: []int{2, 63, 3, 3, 2}, Run: func(d []int, t *T) string {
				c := 1<<d[1] + d[2] - 1
				if d[0] == 1 {
					c = -c
				}
				doc := Doc{Name: "n", Count: c}
				return roundTrip(&doc, docTypes[d[3]], cs[d[4]], t)
			}},
			{Name: "scale: every character", Dims: []int{0x3100 + 0x400 + 64, 3}, Run: func(d []int, t *T) string {
				c := rune(d[0])
				switch {
				case d[0] >= 0x3500:
					c = 0x10000 + rune(d[0]-0x3500)*0x3fff
				case d[0] >= 0x3100:
					c = 0xff00 - 0x300 + rune(d[0]-0x3100)
				}
				if !plainRune(c) {
					return t.Skip()
				}
				doc := Doc{Name: string(c), Tags: []string{"a" + string(c) + "b", string(c) + string(c)}}
				return roundTrip(&doc, docTypes[d[1]], nil, t)
			}},
		}
	})
}

// plainRune tells whether the character can be represented in XML as well as
// in YAML, without being normalised.
func plainRune(c rune) bool {
	switch {
	case c < 0x20 && c != '\n' && c != '\t', c >= 0x7f && c < 0xa0, c >= 0xd800 && c < 0xe000, c >= 0xfdd0 && c <= 0xfdef, c&0xfffe == 0xfffe, c == 0xfeff, c == 0xfffd, c > 0x10ffff:
		return false
	}
	return true
}

// paramValues are values of media type parameters.
var paramValues = []string{"1", "a,b", "a;q=0", `a"b`, `a\b`, "x y", ", ", "=;,", "text/html", "", ",", "a, text/html;q=1", `",`, `\`, "a"}

// paramSpelling writes the value as a token, quoted, or quoted with as many escapes as possible.
func paramSpelling(v string, form int) (string, bool) {
	const specials = `()<>@,;:\"/[]?=`
	if form == 0 {
		return v, v != "" && !strings.ContainsAny(v, specials+" ")
	}
	var b strings.Builder
	for _, c := range v {
		if c == '"' || c == '\\' || form == 2 && strings.ContainsRune(specials, c) {
			b.WriteByte('\\')
		}
		b.WriteRune(c)
	}
	return `"` + b.String() + `"`, true
}

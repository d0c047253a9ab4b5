package main

import (
	"fmt"
	"net/http"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
)

// acceptability decides a negotiation of the default configuration against
// the model: 200 with an acceptable representation, or 406 if there is none.
func acceptability(n negotiator.Negotiator, h Headers, reps []*Rep, t *T) string {
	t.Describe(func() any { return describe(h.http(), reps) })
	sq := thousands(len(reps))
	all, ok := score(h, reps, sq)
	if !ok {
		return t.Skip()
	}
	var acc []scored
	for _, s := range all {
		t.Step("quality", uint64(s.qt), uint64(s.ql), uint64(s.qc), uint64(s.qe))
		if s.acceptable() {
			acc = append(acc, s)
		}
	}
	t.Step("acceptable", maskOf(acc), uint64(len(reps)))
	rec, err := negotiateAny(n, h.http(), reps)
	t.Exec(1)
	if err != nil {
		return fmt.Sprintf("unexpected error %q", err)
	}
	if m := protocol(rec, err); m != "" {
		return m
	}
	switch rec.status() {
	case rec.okStatus():
		t.Outcome("200")
		i := served(rec, reps)
		if i < 0 {
			return "200 with a body that is not one of the representations"
		}
		if !all[i].acceptable() {
			return fmt.Sprintf("served representation #%d that is not acceptable (type %d language %d charset %d coding %d)",
				i, all[i].qt, all[i].ql, all[i].qc, all[i].qe)
		}
		return ""
	case http.StatusNotAcceptable:
		t.Outcome("406")
		if len(acc) > 0 {
			return fmt.Sprintf("406 although representation #%d is acceptable", acc[0].i)
		}
		return ""
	}
	return fmt.Sprintf("unexpected status %d", rec.status())
}

func classDims(n, base int) []int {
	d := []int{6, 6, 6, 6}
	for i := 0; i < n; i++ {
		k := 1
		for f := 0; f < 4; f++ {
			k *= base
		}
		d = append(d, k)
	}
	return d
}

func classSpace(name string, n, base int, run func(h Headers, reps []*Rep, t *T) string) *Space {
	return &Space{Name: name, Dims: classDims(n, base), Run: func(d []int, t *T) string {
		var reps []*Rep
		for i := 0; i < n; i++ {
			reps = append(reps, classRep(i, d[4+i], base))
		}
		return run(classHeaders(d[0], d[1], d[2], d[3]), reps, t)
	}}
}

// fieldSpaces enumerates the values of one header completely, up to max
// ranges, for every attribute value.
func fieldSpaces(max int, qs []int, run func(h Headers, reps []*Rep, t *T) string) (out []*Space) {
	for f := 0; f < 4; f++ {
		f := f
		alphabet := cross(rangesOf(f), qs)
		dims := []int{attrCount(f)}
		for i := 0; i < max; i++ {
			dims = append(dims, len(alphabet)+1)
		}
		out = append(out, &Space{Name: fmt.Sprintf("%s up to %d ranges", fieldNames[f], max), Dims: dims, Run: func(d []int, t *T) string {
			rs, ok := pickList(d[1:], alphabet)
			if !ok {
				return t.Skip()
			}
			var h Headers
			h.set(f, rs)
			r := plain(0)
			setAttr(r, f, d[0])
			return run(h, []*Rep{r}, t)
		}})
	}
	return
}

// everyQ: all 1001 quality values, on an explicit range, a wildcard and a
// range with other ranges around.
func everyQSpace(run func(h Headers, reps []*Rep, t *T) string) *Space {
	return &Space{Name: "every quality value", Dims: []int{4, 5, 1001}, Run: func(d []int, t *T) string {
		f, q := d[0], d[2]
		explicit := []string{"text/html", "en-US", "utf-8", "gzip"}[f]
		other := []string{"image/png", "de", "utf-16", "br"}[f]
		wild := "*"
		if f == fAccept {
			wild = "*/*"
		}
		var rs []Rng
		switch d[1] {
		case 0:
			rs = []Rng{rng(explicit, q)}
		case 1:
			rs = []Rng{rng(wild, q)}
		case 2:
			rs = []Rng{rng(other, qNone), rng(explicit, q), rng(wild, 500)}
		case 3:
			rs = []Rng{rng(wild, 0), rng(explicit, q)}
		case 4:
			rs = []Rng{rng(wild, q), rng(other, 1000), rng(other, 0)}
		}
		var h Headers
		h.set(f, rs)
		r := plain(0)
		setAttr(r, f, []int{0, 0, 0, 1}[f])
		return run(h, []*Rep{r}, t)
	}}
}

// positions: one acceptable representation among n, one relevant range among m.
func positionSpace(max int, run func(h Headers, reps []*Rep, t *T) string) *Space {
	return &Space{Name: "positions", Dims: []int{4, max, max, max, max, 2}, Run: func(d []int, t *T) string {
		f, n, k, m, j := d[0], d[1]+1, d[2], d[3]+1, d[4]
		if k >= n || j >= m {
			return t.Skip()
		}
		var rs []Rng
		for i := 0; i < m; i++ {
			switch {
			case i == j && d[5] == 0:
				rs = append(rs, rng([]string{"text/html", "en-US", "utf-8", "gzip"}[f], 700))
			case i == j:
				rs = append(rs, rng([]string{"text/html", "en-US", "utf-8", "gzip"}[f], 0))
			case f == fAccept:
				rs = append(rs, rng(fmt.Sprintf("image/x%d", i), 999-i))
			case f == fLang:
				rs = append(rs, rng([]string{"de", "nl", "it", "pt", "sv", "da", "pl", "fi"}[i%8], 999-i))
			case f == fCharset:
				rs = append(rs, rng(fmt.Sprintf("windows-%d", 1250+i), 999-i))
			default:
				rs = append(rs, rng([]string{"br", "zstd", "compress", "x-compress"}[i%4], 999-i))
			}
		}
		var reps []*Rep
		for i := 0; i < n; i++ {
			r := plain(i)
			switch f {
			case fAccept:
				r.CT = "application/json"
			case fLang:
				r.CL = "fr"
			case fCharset:
				r.CC = "koi8-r"
			default:
				r.CE = []string{"deflate"}
			}
			if i == k {
				setAttr(r, f, []int{0, 0, 0, 1}[f])
			}
			reps = append(reps, r)
		}
		var h Headers
		h.set(f, rs)
		return run(h, reps, t)
	}}
}

// browsers are header combinations that user agents send.
var browsers = []Headers{
	{Accept: []Rng{rng("text/html", qNone), rng("application/xhtml+xml", qNone), rng("application/xml", 900), rng("image/avif", qNone), rng("image/webp", qNone), rng("*/*", 800)},
		Lang: []Rng{rng("en-US", qNone), rng("en", 500)}, Enc: []Rng{rng("gzip", qNone), rng("deflate", qNone), rng("br", qNone), rng("zstd", qNone)}},
	{Accept: []Rng{rng("application/json", qNone), rng("text/plain", qNone), rng("*/*", qNone)}, Lang: []Rng{rng("fr", qNone), rng("en", 800), rng("de", 500), rng("*", 100)},
		Enc: []Rng{rng("gzip", qNone), rng("compress", qNone), rng("deflate", qNone), rng("br", qNone)}},
	{Accept: []Rng{rng("*/*", qNone)}, Enc: []Rng{rng("deflate", qNone), rng("gzip", qNone)}},
	{Accept: []Rng{rng("text/*", 300), rng("text/html", 700), rng("text/html", qNone, "level", "1"), rng("text/html", 400, "level", "2"), rng("*/*", 500)}},
	{Charset: []Rng{rng("iso-8859-5", qNone), rng("us-ascii", 800)}, Lang: []Rng{rng("de", qNone), rng("en-US", 800), rng("en", 700)}},
	{Charset: []Rng{rng("iso-8859-1", qNone), rng("utf-8", 700), rng("*", 700)}, Enc: []Rng{rng("gzip", 1000), rng("identity", 500), rng("*", 0)}},
	{Enc: []Rng{rng("*", qNone)}, Lang: []Rng{rng("*", qNone)}},
	{Enc: []Rng{rng("compress", 500), rng("gzip", 1000)}, Accept: []Rng{rng("audio/*", 200), rng("text/plain", 500), rng("text/html", 1000)}},
}

func browserSpace(run func(h Headers, reps []*Rep, t *T) string) *Space {
	nt, nl, nc, ne := len(contentTypes), len(languages), len(charsets), len(codings)
	return &Space{Name: "user agent headers", Dims: []int{len(browsers), nt, nl, nc, ne}, Run: func(d []int, t *T) string {
		r := plain(0)
		setAttr(r, fAccept, d[1])
		setAttr(r, fLang, d[2])
		setAttr(r, fCharset, d[3])
		setAttr(r, fEnc, d[4])
		return run(browsers[d[0]], []*Rep{r}, t)
	}}
}

// noLang leaves the language out, the implementation is slow at matching it.
func noLangSpace(name string, n, base int, run func(h Headers, reps []*Rep, t *T) string) *Space {
	k := base * base * base
	dims := []int{6, 6, 6}
	for i := 0; i < n; i++ {
		dims = append(dims, k)
	}
	return &Space{Name: name, Dims: dims, Run: func(d []int, t *T) string {
		var reps []*Rep
		for i := 0; i < n; i++ {
			r, code := plain(i), d[3+i]
			for _, f := range []int{fAccept, fCharset, fEnc} {
				classAttr(r, f, code%base)
				code /= base
			}
			reps = append(reps, r)
		}
		return run(classHeaders(d[0], 0, d[1], d[2]), reps, t)
	}}
}

// withLang combines the language with each one of the other headers.
func withLangSpace(name string, n int, run func(h Headers, reps []*Rep, t *T) string) *Space {
	dims := []int{3, 6, 6}
	for i := 0; i < n; i++ {
		dims = append(dims, 9)
	}
	return &Space{Name: name, Dims: dims, Run: func(d []int, t *T) string {
		f := []int{fAccept, fCharset, fEnc}[d[0]]
		var reps []*Rep
		for i := 0; i < n; i++ {
			r := plain(i)
			classAttr(r, fLang, d[3+i]%3)
			classAttr(r, f, d[3+i]/3)
			reps = append(reps, r)
		}
		c := [4]int{}
		c[fLang], c[f] = d[1], d[2]
		return run(classHeaders(c[0], c[1], c[2], c[3]), reps, t)
	}}
}

func thorough(tier string) bool { return tier == "thorough" }

func init() {
	register(&Prop{
		ID:   "P01",
		Rule: "every combination of header values and representation metadata of the listed spaces is negotiated by the real proactive negotiator; the model derives the quality of every attribute from structured ranges",
		Assumptions: []string{
			"language pairs related only by fuzzy matching (for example range en-US and language en-GB or en) are outside of the model",
		},
		Spaces: func(tier string) []*Space {
			n, nn := proactive.New(), proactive.New(proactive.DisableNotAcceptableRepresentation())
			def := func(h Headers, reps []*Rep, t *T) string { return acceptability(n, h, reps, t) }
			run := func(h Headers, reps []*Rep, t *T) string { return acceptability(nn, h, reps, t) }
			out := []*Space{everyQSpace(def), browserSpace(def), classSpace("all headers, 1 representation", 1, 3, def)}
			out = append(out, fieldSpaces(2, smallQs, run)...)
			out = append(out,
				positionSpace(12, run),
				noLangSpace("3 headers, 2 representations", 2, 3, run),
				withLangSpace("language and another header, 2 representations", 2, run),
				classSpace("all headers, 2 fully specified representations", 2, 2, run),
			)
			if thorough(tier) {
				out = append(out, fieldSpaces(3, []int{qNone, 0, 500, 1}, run)...)
				out = append(out, withLangSpace("language and another header, 3 representations", 3, run))
				out = append(out, positionSpace(24, run))
				out = append(out, classSpace("all headers, 2 representations", 2, 3, run))
				out = append(out, noLangSpace("3 headers, 3 representations", 3, 2, run))
			} else {
				out = append(out, fieldSpaces(3, []int{qNone, 0}, run)...)
			}
			return out
		},
	})
}

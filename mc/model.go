package main

import (
	"net/http"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/text/language"
)

// The reference model works on structured ranges, qualities are integers in
// thousandths. It shares nothing with the implementation, text is only
// produced for the implementation to parse.

// Rng is a media, language, charset or content coding range.
type Rng struct {
	V string
	// Q is the quality value in thousandths, qNone when not specified.
	Q int
	// media type parameters, for media ranges.
	P [][2]string
}

const qNone = -1

func (r Rng) q() int {
	if r.Q == qNone {
		return 1000
	}
	return r.Q
}

func qText(q int) string {
	if q == 1000 {
		return "1"
	}
	if q == 0 {
		return "0"
	}
	s := strconv.Itoa(q)
	for len(s) < 3 {
		s = "0" + s
	}
	return "0." + strings.TrimRight(s, "0")
}

func (r Rng) text() string {
	s := r.V
	for _, p := range r.P {
		s += ";" + p[0] + "=" + p[1]
	}
	if r.Q != qNone {
		s += ";q=" + qText(r.Q)
	}
	return s
}

// Headers is the structured form of the negotiation headers, nil when absent.
type Headers struct {
	Accept, Lang, Charset, Enc []Rng
}

func setField(h http.Header, k string, rs []Rng) {
	if len(rs) == 0 {
		return
	}
	var s []string
	for _, r := range rs {
		s = append(s, r.text())
	}
	h[k] = []string{strings.Join(s, ", ")}
}

func (h Headers) http() http.Header {
	x := make(http.Header, 4)
	setField(x, "Accept", h.Accept)
	setField(x, "Accept-Language", h.Lang)
	setField(x, "Accept-Charset", h.Charset)
	setField(x, "Accept-Encoding", h.Enc)
	return x
}

// contentType is a parsed content type of a representation.
type contentType struct {
	t, s string
	p    map[string]string
}

// parseCT splits the content types of the alphabet, which are all written
// as type/subtype;key=value without whitespace.
func parseCT(s string) contentType {
	parts := strings.Split(s, ";")
	ts := strings.SplitN(strings.ToLower(parts[0]), "/", 2)
	c := contentType{t: ts[0], s: ts[1]}
	if len(parts) > 1 {
		c.p = map[string]string{}
		for _, kv := range parts[1:] {
			f := strings.SplitN(kv, "=", 2)
			c.p[strings.ToLower(f[0])] = f[1]
		}
	}
	return c
}

// none is the result of a match without a governing range.
const none = -1

// typeQuality is the quality of the content type: the one of the most
// specific matching range, the highest one if there are several.
func typeQuality(rs []Rng, ct string) (q int, wildcard bool) {
	if ct == "" || len(rs) == 0 {
		return 1000, ct != ""
	}
	c := parseCT(ct)
	best := none
	for _, r := range rs {
		v := strings.ToLower(r.V)
		slash := strings.IndexByte(v, '/')
		t, s := v[:slash], v[slash+1:]
		spec := 0
		if t != "*" {
			if t != c.t {
				continue
			}
			spec = 100
		}
		if s != "*" {
			if s != c.s {
				continue
			}
			spec = 200
		}
		ok := true
		for _, p := range r.P {
			if c.p[strings.ToLower(p[0])] != p[1] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		spec += len(r.P)
		if spec > best || spec == best && r.q() > q {
			best, q = spec, r.q()
			wildcard = t == "*" || s == "*"
		}
	}
	if best == none {
		return 0, false
	}
	return q, wildcard
}

// langMatch is a match of a language range per RFC4647 basic filtering, or by
// the relations of CLDR between a range and a tag of the same language. It is
// not decided (ok false) for what is not a well-formed tag.
func langMatch(r, tag string) (match bool, spec int, ok bool) {
	r, tag = strings.ToLower(r), strings.ToLower(tag)
	if r == "*" {
		return true, 0, true
	}
	if r == tag {
		return true, 1000, true
	}
	if strings.HasPrefix(tag, r+"-") {
		return true, 1 + strings.Count(r, "-"), true
	}
	if strings.SplitN(r, "-", 2)[0] == strings.SplitN(tag, "-", 2)[0] {
		m, ok := related(r, tag)
		return m, 1 + strings.Count(r, "-"), ok
	}
	return false, 0, true
}

var relations sync.Map

// related tells whether ranges that are not a prefix of the tag of the same
// language match it by the relations that CLDR defines.
func related(r, tag string) (match, ok bool) {
	if m, found := relations.Load(r + " " + tag); found {
		return m.(bool), true
	}
	rt, err := language.Parse(r)
	if err != nil {
		return false, false
	}
	tt, err := language.Parse(tag)
	if err != nil {
		return false, false
	}
	_, i, _ := language.NewMatcher([]language.Tag{language.Und, rt}).Match(tt)
	relations.Store(r+" "+tag, i != 0)
	return i != 0, true
}

// langQuality also provides the position of the governing range among the
// ranges (the earlier the better), len(rs) if there is none.
func langQuality(rs []Rng, tag string) (q, pos int, wildcard, ok bool) {
	if tag == "" || len(rs) == 0 {
		return 1000, len(rs), tag != "", true
	}
	best := none
	for i, r := range rs {
		m, spec, decided := langMatch(r.V, tag)
		if !decided {
			return 0, 0, false, false
		}
		if m && (spec > best || spec == best && r.q() > q) {
			best, q, pos = spec, r.q(), i
			wildcard = r.V == "*"
		}
	}
	if best == none {
		return 0, len(rs), false, true
	}
	return q, pos, wildcard, true
}

// nameQuality is for charsets and content codings; found tells whether a range matches.
func nameQuality(rs []Rng, name string) (q int, wildcard, found bool) {
	best := none
	for _, r := range rs {
		spec := 0
		if r.V != "*" {
			if !strings.EqualFold(r.V, name) {
				continue
			}
			spec = 1
		}
		if spec > best || spec == best && r.q() > q {
			best, q = spec, r.q()
			wildcard = r.V == "*"
		}
	}
	if best == none {
		return 0, false, false
	}
	return q, wildcard, true
}

func charsetQuality(rs []Rng, cs string) (int, bool) {
	if cs == "" || len(rs) == 0 {
		return 1000, cs != ""
	}
	q, w, _ := nameQuality(rs, cs)
	return q, w
}

// encQuality: every applied coding has to be acceptable; no coding is
// acceptable unless excluded.
func encQuality(rs []Rng, ce []string) int {
	if len(rs) == 0 {
		return 1000
	}
	min, ident := 1000, true
	for _, e := range ce {
		if strings.EqualFold(e, "identity") {
			continue
		}
		ident = false
		if q, _, _ := nameQuality(rs, e); q < min {
			min = q
		}
	}
	if ident {
		if q, _, found := nameQuality(rs, "identity"); found {
			return q
		}
		return 1000
	}
	return min
}

// scored is a representation with the qualities of the model.
type scored struct {
	i              int
	st             int64 // source quality times type quality, in millionths
	qt, ql, qc, qe int
	pos            int
	level          int // -1 without
	iso            bool
	size           int
}

func (s scored) acceptable() bool { return s.qt > 0 && s.ql > 0 && s.qc > 0 && s.qe > 0 }

func score(h Headers, reps []*Rep, sq []int) (out []scored, ok bool) {
	for i, r := range reps {
		s := scored{i: i, level: -1, size: len(r.Body), iso: strings.EqualFold(r.CC, "iso-8859-1")}
		s.qt, _ = typeQuality(h.Accept, r.CT)
		var decided bool
		s.ql, s.pos, _, decided = langQuality(h.Lang, r.CL)
		if !decided {
			return nil, false
		}
		s.qc, _ = charsetQuality(h.Charset, r.CC)
		s.qe = encQuality(h.Enc, r.CE)
		s.st = int64(sq[i]) * int64(s.qt)
		if r.CT != "" {
			if c := parseCT(r.CT); c.t == "text" && c.s == "html" {
				if l, ok := c.p["level"]; ok {
					n, err := strconv.Atoi(l)
					must(err)
					s.level = n
				}
			}
		}
		out = append(out, s)
	}
	return out, true
}

// apache is the documented selection of Apache httpd. It provides the index of
// the representation, none if there is none; ok is false when a comparison is
// too close for thousandths to tell.
func apache(h Headers, reps []*Rep, sq []int, t *T) (chosen int, ok bool) {
	all, ok := score(h, reps, sq)
	if !ok {
		return none, false
	}
	var vs []scored
	for _, s := range all {
		if s.acceptable() {
			vs = append(vs, s)
		}
	}
	t.Step("acceptable", maskOf(vs), uint64(len(reps)))
	if len(vs) == 0 {
		return none, true
	}
	keep := func(stage string, key func(s scored) int64, amb int64) bool {
		best := key(vs[0])
		for _, v := range vs {
			if k := key(v); k > best {
				best = k
			}
		}
		var out []scored
		for _, v := range vs {
			d := best - key(v)
			if d == 0 {
				out = append(out, v)
			} else if d < amb {
				return false
			}
		}
		vs = out
		t.Step(stage, maskOf(vs), uint64(len(reps)))
		return true
	}
	if !keep("source*type", func(s scored) int64 { return s.st }, stAmbiguity(vs)) {
		return none, false
	}
	keep("language", func(s scored) int64 { return int64(s.ql) }, 0)
	keep("language order", func(s scored) int64 { return -int64(s.pos) }, 0)
	keep("level", func(s scored) int64 { return int64(s.level) }, 0)
	keep("charset", func(s scored) int64 { return int64(s.qc) }, 0)
	keep("not iso-8859-1", func(s scored) int64 {
		if s.iso {
			return 0
		}
		return 1
	}, 0)
	keep("encoding", func(s scored) int64 { return int64(s.qe) }, 0)
	keep("length", func(s scored) int64 { return -int64(s.size) }, 0)
	t.Step("chosen", uint64(vs[0].i), uint64(len(reps)))
	return vs[0].i, true
}

// stAmbiguity: products of two factors below 1 are rounded by the
// implementation to thousandths, which may merge or split close ones.
func stAmbiguity(vs []scored) int64 {
	amb := int64(0)
	for _, v := range vs {
		if v.st%1000 == 500 {
			return 1 << 40
		}
		if v.st%1000 != 0 {
			amb = 1500
		}
	}
	return amb
}

func maskOf(vs []scored) uint64 {
	var m uint64
	for _, v := range vs {
		m |= 1 << uint(v.i%64)
	}
	return m
}

// dropped provides the headers without those that are not strict and that no
// representation satisfies, and whether one that is strict is not satisfied.
func dropped(h Headers, reps []*Rep, sq []int, strict [3]bool) (Headers, bool, bool) {
	all, ok := score(h, reps, sq)
	if !ok {
		return h, false, false
	}
	var a, l, c bool
	for _, s := range all {
		a = a || s.qt > 0
		l = l || s.ql > 0
		c = c || s.qc > 0
	}
	fail := !a && strict[0] || !l && strict[1] || !c && strict[2]
	if !a {
		h.Accept = nil
	}
	if !l {
		h.Lang = nil
	}
	if !c {
		h.Charset = nil
	}
	return h, fail, true
}

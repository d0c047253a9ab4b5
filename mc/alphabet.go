package main

// Alphabets shared by the properties.

func rng(v string, q int, params ...string) Rng {
	r := Rng{V: v, Q: q}
	for i := 0; i+1 < len(params); i += 2 {
		r.P = append(r.P, [2]string{params[i], params[i+1]})
	}
	return r
}

// cross combines every range with every quality.
func cross(rs []Rng, qs []int) (out []Rng) {
	for _, r := range rs {
		for _, q := range qs {
			x := r
			x.Q = q
			out = append(out, x)
		}
	}
	return
}

var (
	mediaRanges = []Rng{
		rng("*/*", 0), rng("text/*", 0), rng("text/html", 0), rng("text/html", 0, "level", "1"),
		rng("application/json", 0), rng("application/*", 0), rng("text/plain", 0), rng("text/html", 0, "level", "2"),
		rng("text/html", 0, "level", "1", "version", "2"), rng("image/png", 0),
	}
	contentTypes = []string{
		"text/html", "text/html;level=1", "application/json", "text/plain", "", "image/png",
		"text/html;level=2", "text/html;level=1;version=2", "application/vnd.a.b+json", "text/html;version=2;level=1",
	}
	langRanges = []Rng{rng("*", 0), rng("en", 0), rng("en-US", 0), rng("fr", 0), rng("de", 0), rng("fr-CA", 0)}
	languages  = []string{"en-US", "fr-CA", "de", "", "en", "fr", "es"}

	charsetRanges = []Rng{rng("*", 0), rng("utf-8", 0), rng("iso-8859-1", 0), rng("us-ascii", 0), rng("Shift_JIS", 0), rng("utf-16", 0)}
	charsets      = []string{"utf-8", "iso-8859-1", "us-ascii", "", "Shift_JIS", "utf-16", "UTF-8"}

	codingRanges = []Rng{rng("*", 0), rng("gzip", 0), rng("identity", 0), rng("deflate", 0), rng("compress", 0), rng("br", 0), rng("x-gzip", 0), rng("zstd", 0), rng("x-compress", 0)}
	codings      = [][]string{
		nil, {"gzip"}, {"identity"}, {"deflate"}, {"gzip", "deflate"}, {"compress"}, {"identity", "gzip"},
		{"gzip", "identity"}, {"br"}, {"deflate", "gzip", "compress"}, {"x-gzip"}, {"GZIP"}, {"zstd"}, {"identity", "identity"}, {"x-compress"},
		{"gzip", "br"},
	}
	smallQs = []int{qNone, 0, 500, 1000, 1, 999}
)

// field selects the header of a dimension.
const (
	fAccept = iota
	fLang
	fCharset
	fEnc
)

var fieldNames = []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding"}

func (h *Headers) set(f int, rs []Rng) {
	switch f {
	case fAccept:
		h.Accept = rs
	case fLang:
		h.Lang = rs
	case fCharset:
		h.Charset = rs
	default:
		h.Enc = rs
	}
}

// attr is one value of the attribute that a header negotiates.
func setAttr(r *Rep, f, k int) {
	switch f {
	case fAccept:
		r.CT = contentTypes[k]
	case fLang:
		r.CL = languages[k]
	case fCharset:
		r.CC = charsets[k]
	default:
		r.CE = codings[k]
	}
}

func attrCount(f int) int {
	return []int{len(contentTypes), len(languages), len(charsets), len(codings)}[f]
}

func rangesOf(f int) []Rng {
	return [][]Rng{mediaRanges, langRanges, charsetRanges, codingRanges}[f]
}

// plain is a representation without any metadata but its identity.
func plain(id int) *Rep {
	return &Rep{ID: id, SQ: 1, Body: bodyFor(id, 8), Loc: mustURL("http://h.example/a/v")}
}

func thousands(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = 1000
	}
	return s
}

// pick decodes a list of up to max elements out of n, with 0 for "no element
// here"; the digits after the first 0 have to be 0 as well (canonical form).
func pickList(d []int, alphabet []Rng) ([]Rng, bool) {
	var out []Rng
	ended := false
	for _, x := range d {
		if x == 0 {
			ended = true
			continue
		}
		if ended {
			return nil, false
		}
		out = append(out, alphabet[x-1])
	}
	return out, true
}

// classes of one header with regard to two attribute values A and B, that are
// matched by explicit ranges or by the wildcard.
type class struct {
	name string
	rs   []Rng
}

var acceptClasses = []class{
	{"absent", nil},
	{"A only", []Rng{rng("text/html", qNone), rng("*/*", 0)}},
	{"B over A", []Rng{rng("text/html", 500), rng("application/json", 900)}},
	{"not A", []Rng{rng("text/html", 0), rng("*/*", qNone)}},
	{"neither", []Rng{rng("image/png", qNone)}},
	{"A by wildcard, B excluded", []Rng{rng("*/*", 300), rng("application/json", 0)}},
}
var langClasses = []class{
	{"absent", nil},
	{"A only", []Rng{rng("en", qNone), rng("*", 0)}},
	{"B over A", []Rng{rng("en-US", 500), rng("fr", 900)}},
	{"not A", []Rng{rng("en", 0), rng("*", qNone)}},
	{"neither", []Rng{rng("de", qNone)}},
	{"A by wildcard, B excluded", []Rng{rng("*", 300), rng("fr", 0)}},
}
var charsetClasses = []class{
	{"absent", nil},
	{"A only", []Rng{rng("utf-8", qNone), rng("*", 0)}},
	{"B over A", []Rng{rng("utf-8", 500), rng("iso-8859-1", 900)}},
	{"not A", []Rng{rng("utf-8", 0), rng("*", qNone)}},
	{"neither", []Rng{rng("utf-16", qNone)}},
	{"A by wildcard, B excluded", []Rng{rng("*", 300), rng("iso-8859-1", 0)}},
}
var encClasses = []class{
	{"absent", nil},
	{"A only", []Rng{rng("gzip", qNone), rng("identity", 0)}},
	{"B over A", []Rng{rng("gzip", 500), rng("deflate", 900)}},
	{"not A", []Rng{rng("gzip", 0), rng("*", qNone)}},
	{"neither", []Rng{rng("br", qNone), rng("*", 0)}},
	{"A by wildcard, B excluded", []Rng{rng("*", 300), rng("deflate", 0)}},
}

// classAttr sets attribute f to A (0), B (1) or unspecified (2).
func classAttr(r *Rep, f, k int) {
	switch f {
	case fAccept:
		r.CT = []string{"text/html", "application/json", ""}[k]
	case fLang:
		r.CL = []string{"en-US", "fr", ""}[k]
	case fCharset:
		r.CC = []string{"utf-8", "iso-8859-1", ""}[k]
	default:
		r.CE = [][]string{{"gzip"}, {"deflate"}, nil}[k]
	}
}

func classRep(id, code, base int) *Rep {
	r := plain(id)
	for f := 0; f < 4; f++ {
		classAttr(r, f, code%base)
		code /= base
	}
	return r
}

func classHeaders(a, l, c, e int) Headers {
	return Headers{acceptClasses[a].rs, langClasses[l].rs, charsetClasses[c].rs, encClasses[e].rs}
}

// archetype is a representation of one of the kinds that a list or a variant
// description may be tempted to treat differently.
const archetypes = 6

func archetype(id, k int) *Rep {
	r := plain(id)
	r.CT, r.CL, r.CC, r.CE, r.CF = "video/mp4", "es", "koi8-r", []string{"zstd"}, []string{"tables"}
	r.Loc = mustURL("http://h.example/a/v?x=1")
	r.SQ = 0.5
	switch k {
	case 1: // of no quality
		r.SQ = 0
	case 2: // without anything
		*r = Rep{ID: id, SQ: 1, Body: r.Body}
	case 3: // differs from the first one in its features
		r.CF = []string{"!tables"}
	case 4: // empty
		r.Body = nil
	case 5: // differs from the first one in its quality
		r.SQ = 1
	}
	return r
}

// archetypesOf decodes digits into representations, 0 stands for no further one.
func archetypesOf(d []int) (reps []*Rep, ok bool) {
	for i, k := range d {
		if k == 0 {
			continue
		}
		if len(reps) < i {
			return nil, false
		}
		reps = append(reps, archetype(i, k-1))
	}
	return reps, true
}

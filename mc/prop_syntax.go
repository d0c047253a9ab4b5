package main

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/transparent"
)

// spelling is one way of writing a field: how the elements are distributed
// over lines, separated, padded and cased.
type spelling struct {
	lines int // bit i: a new line starts before element i+1
	sep   string
	ows   string
	cas   int
	q     int
	pre   string
	post  string
}

var (
	seps    = []string{", ", ",", " ,", "\t,\t", ",,", " , ,\t"}
	owss    = []string{"", " ", "\t", "  "}
	affixes = [][2]string{{"", ""}, {", ", ""}, {"", " ,"}, {",,", ",\t,"}}
)

func recase(s string, c int) string {
	switch c {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		b := []byte(s)
		for i := range b {
			if i%2 == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

// qSpellings are the ways of writing a quality, form k of kMax.
const qForms = 4

func qSpelling(q, form int) string {
	base := qText(q)
	switch form {
	case 1: // three digits
		if !strings.Contains(base, ".") {
			return base + ".000"
		}
		for len(base) < 5 {
			base += "0"
		}
	case 2: // one more digit, when there is room
		if !strings.Contains(base, ".") {
			return base + ".0"
		}
		if len(base) < 5 {
			base += "0"
		}
	case 3: // trailing dot
		if !strings.Contains(base, ".") {
			return base + "."
		}
	}
	return base
}

func (s spelling) element(r Rng) string {
	out := recase(r.V, s.cas)
	for _, p := range r.P {
		out += s.ows + ";" + s.ows + recase(p[0], s.cas) + "=" + p[1]
	}
	if r.Q != qNone {
		name := "q"
		if s.cas == 1 || s.cas == 3 {
			name = "Q"
		}
		out += s.ows + ";" + s.ows + name + "=" + qSpelling(r.Q, s.q)
	} else if s.q == 3 && len(r.P) == 0 {
		// the default weight may be written.
		out += s.ows + ";" + s.ows + "q=1"
	}
	return out
}

func (s spelling) field(rs []Rng) []string {
	lines := []string{s.pre}
	for i, r := range rs {
		if i > 0 {
			if s.lines&(1<<(i-1)) != 0 {
				lines[len(lines)-1] += s.post
				lines = append(lines, s.pre)
			} else {
				lines[len(lines)-1] += s.sep
			}
		}
		lines[len(lines)-1] += s.element(r)
	}
	lines[len(lines)-1] += s.post
	return lines
}

func plainSpelling(rs []Rng) []string { return spelling{sep: ", "}.field(rs) }

// syntaxFields are the values whose spelling is varied.
var syntaxFields = []struct {
	key   string
	lists [][]Rng
}{
	{"Accept", [][]Rng{
		{rng("text/html", 500), rng("application/json", 900), rng("image/png", 0)},
		{rng("text/*", 300), rng("text/html", qNone, "level", "1"), rng("*/*", 100)},
		{rng("text/html", 0), rng("*/*", qNone), rng("application/json", 123)},
		{rng("application/json", 1000), rng("text/html", 1)},
		{rng("image/png", qNone)},
	}},
	{"Accept-Language", [][]Rng{
		{rng("en-US", 500), rng("fr", 900), rng("de", 0)},
		{rng("*", 100), rng("fr", 0), rng("en", qNone)},
		{rng("de", qNone), rng("fr", 0), rng("*", 0)},
		{rng("en", 0), rng("fr", 1)},
		{rng("es", qNone)},
	}},
	{"Accept-Charset", [][]Rng{
		{rng("utf-8", 500), rng("iso-8859-1", 900), rng("Shift_JIS", 0)},
		{rng("*", 100), rng("iso-8859-1", 0), rng("utf-8", qNone)},
		{rng("us-ascii", qNone), rng("utf-8", 0), rng("*", 0)},
		{rng("utf-8", 0), rng("Shift_JIS", 1)},
		{rng("utf-16", qNone)},
	}},
	{"Accept-Encoding", [][]Rng{
		{rng("gzip", 500), rng("deflate", 900), rng("identity", 0)},
		{rng("*", 100), rng("deflate", 0), rng("gzip", qNone)},
		{rng("br", qNone), rng("gzip", 0), rng("*", 0)},
		{rng("identity", 0), rng("x-gzip", 1)},
		{rng("compress", qNone)},
	}},
}

// syntaxReps differ in one attribute each, so that any change of a quality
// changes which one is served, or the order of the choice.
func syntaxReps() []*Rep {
	var out []*Rep
	add := func(ct, cl, cc string, ce ...string) {
		r := plain(len(out))
		r.CT, r.CL, r.CC, r.CE = ct, cl, cc, ce
		out = append(out, r)
	}
	add("text/html", "en-US", "utf-8", "gzip")
	add("application/json", "fr", "iso-8859-1", "deflate")
	add("image/png", "de", "Shift_JIS")
	add("text/html;level=1", "fr", "utf-8", "x-gzip")
	return out
}

func register05() {
	register(&Prop{
		ID:   "P05",
		Rule: "every spelling (distribution over lines, separators, empty elements, optional whitespace, case, forms of a weight) of every listed field value is negotiated and has to be answered exactly as the plain spelling; every subset of the representations is offered",
		Spaces: func(tier string) []*Space {
			nn := proactive.New(proactive.DisableNotAcceptableRepresentation())
			lax := proactive.New(proactive.DisableNotAcceptableRepresentation(), proactive.DisableStrictMode())
			tr := transparent.New()
			var out []*Space
			for fi, f := range syntaxFields {
				f := f
				ncase, nq := 4, qForms
				_ = fi
				out = append(out, &Space{Name: f.key, Dims: []int{len(f.lists), 4, len(seps), len(affixes), len(owss), ncase, nq, 15}, Run: func(d []int, t *T) string {
					rs := f.lists[d[0]]
					if d[1] >= 1<<(len(rs)-1) {
						return t.Skip()
					}
					if len(rs) < 2 && d[2] > 0 {
						return t.Skip()
					}
					if !thorough(tier) && d[4] > 1 && d[2]+d[3] > 0 {
						return t.Skip() // tabs only with the plain separators
					}
					s := spelling{d[1], seps[d[2]], owss[d[4]], d[5], d[6], affixes[d[3]][0], affixes[d[3]][1]}
					var reps []*Rep
					for i, r := range syntaxReps() {
						if (d[7]+1)&(1<<i) != 0 {
							reps = append(reps, r)
						}
					}
					return sameAnswer([]negotiator.Negotiator{nn, lax}, f.key, plainSpelling(rs), s.field(rs), nil, reps, t)
				}})
			}
			// long runs of what does not matter.
			ss := scale(1025)
			out = append(out, &Space{Name: "scale: runs", Dims: []int{len(syntaxFields), 5, 6, len(ss), 2}, Run: func(d []int, t *T) string {
				f := syntaxFields[d[0]]
				rs := f.lists[d[1]]
				n := ss[d[3]]
				s := spelling{sep: ", "}
				switch d[2] {
				case 0:
					s.sep = "," + strings.Repeat(" ", n)
				case 1:
					s.sep = strings.Repeat(",", n)
				case 2:
					s.ows = strings.Repeat([]string{" ", "\t"}[n%2], n)
				case 3:
					s.pre, s.post = strings.Repeat(", ", n), strings.Repeat(" ,", n)
				case 4:
					s.pre, s.post = strings.Repeat("\t", n), strings.Repeat(" ", n)
				}
				lines := s.field(rs)
				if d[2] == 5 {
					// lines without an element, around and between
					one := spelling{sep: ", ", lines: 1}.field(rs)
					lines = nil
					for i := 0; i < n; i++ {
						lines = append(lines, ",")
					}
					lines = append(append([]string{one[0]}, lines...), one[1:]...)
				}
				return sameAnswer([]negotiator.Negotiator{nn, lax}, f.key, plainSpelling(rs), lines, nil, syntaxReps()[d[4]:], t)
			}})
			// lines that are empty, in front of, between and behind the other ones.
			empties := []string{"", " ", "\t", ",", " , "}
			out = append(out, &Space{Name: "empty lines", Dims: []int{len(syntaxFields), 5, 4, len(empties) + 1, len(empties) + 1, len(empties) + 1, len(empties) + 1, 15}, Run: func(d []int, t *T) string {
				f := syntaxFields[d[0]]
				rs := f.lists[d[1]]
				if d[2] >= 1<<(len(rs)-1) || d[3]+d[4]+d[5]+d[6] == 0 || !thorough(tier) && (d[3]*d[4]*d[5]*d[6] > 0 || d[7]%3 != 2) {
					return t.Skip()
				}
				var lines []string
				for i, l := range (spelling{sep: ", ", lines: d[2]}).field(rs) {
					if d[3+i] > 0 {
						lines = append(lines, empties[d[3+i]-1])
					}
					lines = append(lines, l)
				}
				if d[6] > 0 {
					lines = append(lines, empties[d[6]-1])
				}
				var reps []*Rep
				for i, r := range syntaxReps() {
					if (d[7]+1)&(1<<i) != 0 {
						reps = append(reps, r)
					}
				}
				return sameAnswer([]negotiator.Negotiator{nn, lax}, f.key, plainSpelling(rs), lines, nil, reps, t)
			}})
			// Negotiate and Accept-Features have no weights.
			type tf struct {
				key   string
				elems []string
				cases int
				other http.Header
			}
			someFeatures := http.Header{"Accept-Features": {"tables, !frames, dpi=72, paper=a4"}}
			tfs := []tf{
				{"Negotiate", []string{"trans", "1.0"}, 4, someFeatures},
				{"Negotiate", []string{"vlist", "guess-small", "x-ext"}, 4, someFeatures},
				{"Negotiate", []string{"guess-small"}, 4, someFeatures},
				{"Negotiate", []string{"vlist", "trans", "2.0"}, 4, someFeatures},
				{"Negotiate", []string{"*", "trans"}, 4, someFeatures},
				{"Negotiate", []string{"1.0", "guess-small"}, 4, someFeatures},
				{"Negotiate", []string{"x-ext", "trans"}, 4, nil},
				{"Accept-Features", []string{"tables", "!frames", "dpi=72"}, 1, http.Header{"Negotiate": {"*"}}},
				{"Accept-Features", []string{"frames", "tables!=3", "paper={a4}"}, 1, http.Header{"Negotiate": {"1.0"}}},
			}
			feats := [][]string{{"tables"}, {"!frames"}, {"dpi=72"}, {"dpi=[70-80]"}, {"paper=a4"}, {"tables!=3;+1.0-0.5"}}
			wider := append(append([][2]string{}, affixes...), [2]string{" ", "\t"}, [2]string{"\t ", " ,"})
			out = append(out, &Space{Name: "empty lines of Negotiate and Accept-Features", Dims: []int{len(tfs), 4, len(empties) + 1, len(empties) + 1, len(empties) + 1, len(empties) + 1, len(feats)}, Run: func(d []int, t *T) string {
				f := tfs[d[0]]
				if d[1] >= 1<<(len(f.elems)-1) {
					return t.Skip()
				}
				var rs []Rng
				for _, e := range f.elems {
					rs = append(rs, rng(e, qNone))
				}
				var lines []string
				for i, l := range (spelling{sep: ", ", lines: d[1]}).field(rs) {
					if d[2+i] > 0 {
						lines = append(lines, empties[d[2+i]-1])
					}
					lines = append(lines, l)
				}
				if d[5] > 0 {
					lines = append(lines, empties[d[5]-1])
				}
				r1, r2 := plain(0), plain(1)
				r1.CF, r1.SQ, r2.SQ = feats[d[6]], 0.9, 0.8
				return sameAnswer([]negotiator.Negotiator{tr}, f.key, plainSpelling(rs), lines, f.other, []*Rep{r1, r2}, t)
			}})
			out = append(out, &Space{Name: "Negotiate and Accept-Features", Dims: []int{len(tfs), 4, len(seps), len(wider), 4, len(feats)}, Run: func(d []int, t *T) string {
				f := tfs[d[0]]
				if d[1] >= 1<<(len(f.elems)-1) || d[4] >= f.cases {
					return t.Skip()
				}
				var rs []Rng
				for _, e := range f.elems {
					rs = append(rs, rng(e, qNone))
				}
				s := spelling{d[1], seps[d[2]], "", d[4], 0, wider[d[3]][0], wider[d[3]][1]}
				r1, r2 := plain(0), plain(1)
				r1.CF, r1.SQ, r2.SQ = feats[d[5]], 0.9, 0.8
				return sameAnswer([]negotiator.Negotiator{tr}, f.key, plainSpelling(rs), s.field(rs), f.other, []*Rep{r1, r2}, t)
			}})
			return out
		},
	})
}

func sameAnswer(ns []negotiator.Negotiator, key string, plainLines, lines []string, other http.Header, reps []*Rep, t *T) string {
	t.Describe(func() any {
		return map[string]any{"field": key, "plain": plainLines, "spelling": lines, "representations": describe(nil, reps)}
	})
	t.Step("spelling", hashStr(key+strings.Join(plainLines, "\n")), hashStr(strings.Join(lines, "\n")))
	for _, n := range ns {
		h1, h2 := http.Header{}, http.Header{}
		for k, v := range other {
			h1[k], h2[k] = v, v
		}
		h1[key], h2[key] = plainLines, lines
		a, err := negotiate(n, request(h1, nil), false, asReps(reps)...)
		if err != nil {
			return fmt.Sprintf("plain spelling: unexpected error %q", err)
		}
		b, err := negotiate(n, request(h2, nil), false, asReps(reps)...)
		t.Exec(2)
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		t.Outcome(fmt.Sprint(a.status()))
		if a.render() != b.render() {
			return fmt.Sprintf("answered %q, the plain spelling is answered %q", b.render(), a.render())
		}
	}
	return ""
}

func init() { register05() }

package main

import (
	"fmt"
	"net/http"
	"sync"

	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// candidates are representations of all sorts, also such whose preference no
// model of ours defines: related languages, odd source qualities and levels.
func candidates() []*Rep {
	mk := func(ct, cl, cc string, sq float32, size int, ce, cf []string) *Rep {
		return &Rep{CT: ct, CL: cl, CC: cc, SQ: sq, CE: ce, CF: cf}
	}
	rs := []*Rep{
		mk("text/html", "en", "utf-8", 1, 8, nil, nil),
		mk("text/html", "en", "utf-8", 1, 8, nil, nil), // equal to the previous one
		mk("text/html;level=1", "en-GB", "utf-8", 1, 8, nil, nil),
		mk("text/html;level=2", "en-US", "iso-8859-1", 0.9, 8, []string{"gzip"}, nil),
		mk("text/html;level=10", "fr", "ISO-8859-1", 0.9, 20, nil, nil),
		mk("application/json", "fr-CA", "utf-8", 0.5, 8, []string{"gzip"}, nil),
		mk("application/json", "", "", 0.4995, 9, []string{"deflate", "gzip"}, []string{"tables"}),
		mk("application/xml", "zh-Hant", "utf-16", 0.33333, 8, nil, []string{"!tables"}),
		mk("text/plain", "nb", "us-ascii", 0.33334, 10, []string{"br"}, []string{"a=[1-5]"}),
		mk("text/plain;format=flowed", "no", "us-ascii", 0, 8, nil, []string{"tables;+1.5-0.5"}),
		mk("", "de", "utf-8", 1, 8, nil, nil),
		mk("", "", "", 0.123456, 100, []string{"identity"}, nil),
		mk("image/png", "", "", 0.8, 5000, nil, nil),
		mk("TEXT/HTML", "EN", "UTF-8", 0.7, 8, []string{"X-GZIP"}, nil),
		mk("text/html;level=0", "en-GB", "utf-8", 0.9999, 8, nil, []string{"x"}),
		mk("application/vnd.x+json", "pt-BR", "koi8-r", 0.0001, 8, []string{"compress"}, nil),
		mk("text/html", "", "", 1, 8, nil, nil),
		mk("text/html", "", "", 0.9, 8, nil, []string{"tables;+1.5-0.5"}), // better than 1 with tables
	}
	for i, r := range rs {
		r.ID = i
		r.Loc = mustURL(fmt.Sprintf("http://h.example/a/v%d", i))
		r.Body = bodyFor(i, []int{8, 8, 8, 8, 20, 8, 9, 8, 10, 8, 8, 100, 5000, 8, 8, 8, 8, 8}[i])
	}
	return rs
}

// choosing are the requests of the property.
func choosing() (out []http.Header) {
	lists := [][]string{
		{"", "text/html, application/json;q=0.9, */*;q=0.1", "text/html;level=2;q=0.3, text/html;q=0.7, text/*;q=0.1, application/json", "*/*;q=0.333, text/plain;q=0.9995", "application/xml;q=0, */*"},
		{"", "en-GB, en;q=0.9, *;q=0.1", "fr-CA, nb;q=0.8, zh;q=0.8, de;q=0.8", "*, en;q=0", "no, pt-PT;q=0.5, en-US;q=0.333"},
		{"", "utf-8, *;q=0.2", "iso-8859-1, us-ascii;q=0.5, utf-16;q=0.5", "koi8-r;q=0, *"},
		{"", "gzip, identity;q=0.5", "br;q=1.0, gzip;q=0.8, *;q=0.1", "identity;q=0, *;q=0.2"},
		{"", "tables, a=3", "!tables, x;q=0.5"},
	}
	names := []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding", "Accept-Features"}
	for a := range lists[0] {
		for l := range lists[1] {
			for c := range lists[2] {
				for e := range lists[3] {
					for f := range lists[4] {
						h := http.Header{}
						for i, k := range []int{a, l, c, e, f} {
							if v := lists[i][k]; v != "" {
								h[names[i]] = []string{v}
							}
						}
						out = append(out, h)
					}
				}
			}
		}
	}
	return
}

// pick calls the algorithm twice and identifies the choice: an index, or none.
func directChoice(c representation.Chooser, h http.Header, reps []*Rep, t *T) (int, error, string) {
	given := asReps(reps)
	keep := append([]representation.Representation{}, given...)
	req := request(h, nil)
	first, err := c.Choose(req, given...)
	second, err2 := c.Choose(req, given...)
	t.Exec(2)
	for i := range keep {
		if given[i] != keep[i] {
			return none, nil, "the given representations were reordered"
		}
	}
	if fmt.Sprint(err) != fmt.Sprint(err2) || first != second {
		return none, nil, fmt.Sprintf("chose %v (%v) and then %v (%v)", first, err, second, err2)
	}
	if err != nil {
		if first != nil {
			return none, nil, "chose despite of an error"
		}
		return none, err, ""
	}
	if first == nil {
		return none, nil, ""
	}
	for i := range keep {
		if first == keep[i] {
			return i, nil, ""
		}
	}
	return none, nil, fmt.Sprintf("chose %v, which was not given", first)
}

// preference is what the algorithm does with every single representation and
// with every ordered pair, for one request.
type preference struct {
	once   sync.Once
	alone  []bool
	firsts [][]int // by pair (i, j): 0 for i, 1 for j, none
	failed string
	// errs are the representations that make the algorithm fail.
	errs []bool
}

func (p *preference) learn(c representation.Chooser, h http.Header, cs []*Rep, t *T) {
	p.alone, p.errs = make([]bool, len(cs)), make([]bool, len(cs))
	p.firsts = make([][]int, len(cs))
	for i := range cs {
		k, err, m := directChoice(c, h, []*Rep{cs[i]}, t)
		if m != "" {
			p.failed = m
			return
		}
		p.alone[i], p.errs[i] = k == 0, err != nil
	}
	for i := range cs {
		p.firsts[i] = make([]int, len(cs))
		for j := range cs {
			x, y := cs[i], *cs[j]
			k, _, m := directChoice(c, h, []*Rep{x, &y}, t)
			if m != "" {
				p.failed = m
				return
			}
			p.firsts[i][j] = k
		}
	}
}

// better tells whether i is chosen over j wherever it is listed.
func (p *preference) better(i, j int) bool {
	return p.firsts[i][j] == 0 && p.firsts[j][i] == 1
}

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "the exported selection algorithms decide all sequences of representations up to the bound for every request; the pairwise preference that they reveal has to be a preorder that explains every other choice, and negotiators serve the same choice",
		Spaces: func(tier string) []*Space {
			cs, hs := candidates(), choosing()
			if !thorough(tier) {
				// combinations of two headers, and some of the other ones.
				var some []http.Header
				for i, h := range hs {
					if len(h) <= 1 || len(h) == 2 && (i%5 == 0 || h["Accept-Features"] != nil && h["Accept"] != nil) || i%61 == 0 {
						some = append(some, h)
					}
				}
				hs = some
			}
			pn, tn := proactive.New(proactive.DisableNotAcceptableRepresentation()), transparent.New(transparent.MaximumVariantListSize(5000))
			var out []*Space
			for _, a := range []struct {
				name string
				c    representation.Chooser
				n    func(h http.Header, reps []*Rep) (*Recorder, error)
			}{
				{"ApacheHTTPD", proactive.ApacheHTTPD(), func(h http.Header, reps []*Rep) (*Recorder, error) {
					return negotiate(pn, request(h, nil), false, asReps(reps)...)
				}},
				{"RVSA1", transparent.RVSA1(), func(h http.Header, reps []*Rep) (*Recorder, error) {
					h = h.Clone()
					h["Negotiate"] = []string{"1.0"}
					return negotiate(tn, request(h, nil), false, asReps(reps)...)
				}},
			} {
				a := a
				httpd := a.name == "ApacheHTTPD"
				prefs := make([]preference, len(hs))
				check := func(hi int, idx []int, t *T) string {
					h := hs[hi]
					p := &prefs[hi]
					p.once.Do(func() { p.learn(a.c, h, cs, t) })
					var reps []*Rep
					anyErr := false
					for _, k := range idx {
						r := *cs[k]
						reps = append(reps, &r)
						anyErr = anyErr || (p.failed == "" && p.errs[k])
					}
					t.Describe(func() any { return describe(h, reps) })
					if p.failed != "" {
						return p.failed
					}
					got, err, m := directChoice(a.c, h, reps, t)
					if m != "" {
						return m
					}
					t.Step(a.name, uint64(hi), uint64(got+1), uint64(len(idx)))
					if err != nil {
						t.Outcome(a.name + " error")
						if !anyErr {
							return fmt.Sprintf("error %q, though none of the representations alone is one", err)
						}
						return ""
					}
					t.Outcome(fmt.Sprintf("%s %d of %d", a.name, got, len(idx)))
					// the negotiator serves the choice.
					rec, err := a.n(h, reps)
					t.Exec(1)
					if err != nil {
						return fmt.Sprintf("chosen without error, negotiated with error %q", err)
					}
					want := 406
					if !httpd {
						want = 300
					}
					if got != none {
						want = 200
					}
					if rec.status() != want {
						return fmt.Sprintf("status %d, chosen is %d", rec.status(), got)
					}
					if got != none && string(rec.body) != string(reps[got].Body) {
						return fmt.Sprintf("served %q, chosen is %d", rec.body, got)
					}
					if got == none {
						if httpd {
							for _, k := range idx {
								if p.alone[k] {
									return fmt.Sprintf("nothing is chosen, though #%d alone is", k)
								}
							}
						}
						return ""
					}
					if !p.alone[idx[got]] {
						return fmt.Sprintf("#%d is chosen, though not when alone", idx[got])
					}
					for i, k := range idx {
						if i == got {
							continue
						}
						if p.better(k, idx[got]) {
							return fmt.Sprintf("#%d is chosen, though #%d is preferred to it", idx[got], k)
						}
						// so that irrelevant alternatives are irrelevant, and
						// ties go to the one given first.
						if i < got && !p.better(idx[got], k) && p.firsts[k][idx[got]] == 0 {
							return fmt.Sprintf("#%d is chosen, though #%d is as good and given first", idx[got], k)
						}
					}
					return ""
				}
				malformed := malformedRequests(httpd)
				out = append(out, &Space{Name: a.name + ", malformed requests", Dims: []int{len(malformed), 2, 4}, Run: func(d []int, t *T) string {
					h := malformed[d[0]].Clone()
					if d[1] == 1 { // together with well formed headers
						for k, v := range map[string]string{"Accept": "*/*", "Accept-Language": "*, en", "Accept-Charset": "*", "Accept-Encoding": "*"} {
							if _, ok := h[k]; !ok {
								h[k] = []string{v}
							}
						}
					}
					reps := candidates()[:d[2]]
					t.Describe(func() any { return describe(h, reps) })
					t.Step(a.name+" malformed", uint64(d[0]), uint64(d[1]), uint64(d[2]))
					got, err, m := directChoice(a.c, h, reps, t)
					if m != "" {
						return m
					}
					if err == nil {
						return fmt.Sprintf("chose %d of %d for a malformed request", got, len(reps))
					}
					t.Outcome(a.name + " malformed")
					return ""
				}})
				many := []int{4, 12, 13, 20, 70}
				if thorough(tier) {
					many = scale(257)
				}
				out = append(out, &Space{Name: a.name + ", many representations", Dims: []int{(len(hs) + 3) / 4, 8, 8, len(many), 3}, Run: func(d []int, t *T) string {
					from := []int{0, 1, 3, 5, 6, 11, 13, 17}
					x, y := from[d[1]], from[d[2]]
					idx := make([]int, many[d[3]])
					if x == y || len(idx) == 0 {
						return t.Skip()
					}
					for i := range idx {
						idx[i] = x
						if d[4] == 0 && i%2 == 1 || d[4] == 1 && i%5 == 2 || d[4] == 2 && i == len(idx)-1 {
							idx[i] = y
						}
					}
					return check(d[0]*4, idx, t)
				}})
				depth := 3
				for n := 1; n <= depth; n++ {
					from := make([]int, len(cs))
					for i := range from {
						from[i] = i
					}
					if n == 3 && !thorough(tier) {
						from = []int{0, 1, 3, 4, 5, 6, 8, 11, 13, 16, 17}
					}
					dims := []int{len(hs)}
					for i := 0; i < n; i++ {
						dims = append(dims, len(from))
					}
					out = append(out, &Space{Name: fmt.Sprintf("%s, %d representations", a.name, n), Dims: dims, Run: func(d []int, t *T) string {
						idx := make([]int, len(d)-1)
						for i, k := range d[1:] {
							idx[i] = from[k]
						}
						return check(d[0], idx, t)
					}})
				}
			}
			return out
		},
	})
}

// malformedRequests have one malformed header that the algorithm considers.
func malformedRequests(httpd bool) (out []http.Header) {
	values := map[string][]string{
		"Accept":          {"text/html;q=2", "text/html;q=-1", "text/html;q=x", "a/b;c", "text/html;q=NaN", "text/html, */*;q=1.001"},
		"Accept-Language": {"en;q=2", "en;q=-1", "!", "en, fr;q=x", "en;q=NaN"},
		"Accept-Charset":  {"utf-8;q=2", "utf-8;q=-1", "utf-8;q=x", "utf-8, *;q=1.1"},
	}
	if httpd {
		values["Accept-Encoding"] = []string{"gzip;q=2", "gzip;q=-1", "gzip;q=x", "gzip, *;q=1.1"}
	}
	for _, k := range []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding"} {
		for _, v := range values[k] {
			out = append(out, http.Header{k: {v}})
		}
	}
	return
}

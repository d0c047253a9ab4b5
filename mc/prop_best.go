package main

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
)

// bestChoice decides which representation a negotiation has to serve.
func bestChoice(n negotiator.Negotiator, h Headers, reps []*Rep, sq []int, t *T) string {
	t.Describe(func() any { return describe(h.http(), reps) })
	for i, r := range reps {
		r.SQ = float32(sq[i]) / 1000
	}
	want, ok := apache(h, reps, sq, t)
	if !ok {
		return t.Skip()
	}
	rec, err := negotiateAny(n, h.http(), reps)
	t.Exec(1)
	return expectChoice(rec, err, reps, want, t)
}

func expectChoice(rec *Recorder, err error, reps []*Rep, want int, t *T) string {
	if err != nil {
		return fmt.Sprintf("unexpected error %q", err)
	}
	if m := protocol(rec, err); m != "" {
		return m
	}
	if want == none {
		t.Outcome("406")
		if rec.status() != http.StatusNotAcceptable {
			return fmt.Sprintf("status %d with %q, the model has nothing acceptable", rec.status(), rec.body)
		}
		return ""
	}
	t.Outcome(fmt.Sprintf("200 #%d of %d", want, len(reps)))
	if rec.status() != rec.okStatus() {
		return fmt.Sprintf("status %d, the model serves #%d", rec.status(), want)
	}
	if got := served(rec, reps); got != want {
		return fmt.Sprintf("served #%d, the model serves #%d", got, want)
	}
	return ""
}

// criteria grades every attribute with fixed headers.
var criteriaHeaders = Headers{
	Accept:  []Rng{rng("text/html", qNone), rng("application/json", 1000), rng("text/plain", 500), rng("image/*", 0)},
	Lang:    []Rng{rng("en", qNone), rng("fr", 1000), rng("de", 500)},
	Charset: []Rng{rng("utf-8", qNone), rng("iso-8859-1", qNone), rng("utf-16", 500)},
	Enc:     []Rng{rng("gzip", qNone), rng("identity", qNone), rng("deflate", 500)},
}

type criteria struct {
	ct, cl, cc []string
	ce         [][]string
	size, sq   []int
}

func (c criteria) count() int {
	return len(c.ct) * len(c.cl) * len(c.cc) * len(c.ce) * len(c.size) * len(c.sq)
}

func (c criteria) rep(id, code int) (*Rep, int) {
	next := func(n int) int { x := code % n; code /= n; return x }
	r := plain(id)
	r.CT, r.CL, r.CC = c.ct[next(len(c.ct))], c.cl[next(len(c.cl))], c.cc[next(len(c.cc))]
	r.CE = c.ce[next(len(c.ce))]
	r.Body = bodyFor(id, c.size[next(len(c.size))])
	return r, c.sq[next(len(c.sq))]
}

func (c criteria) space(name string, n int, ng negotiator.Negotiator) *Space {
	dims := make([]int, n)
	for i := range dims {
		dims[i] = c.count()
	}
	return &Space{Name: name, Dims: dims, Run: func(d []int, t *T) string {
		var reps []*Rep
		var sq []int
		for i, code := range d {
			r, q := c.rep(i, code)
			reps, sq = append(reps, r), append(sq, q)
		}
		return bestChoice(ng, criteriaHeaders, reps, sq, t)
	}}
}

// gradedRep is a representation that is level 0 (best) to 2 at one criterion.
const criteriaCount = 9

func gradedRep(id, criterion, level int) (*Rep, int) {
	r := &Rep{ID: id, CT: "text/html;level=2", CL: "en", CC: "utf-8", Body: bodyFor(id, 8), Loc: mustURL("http://h.example/a/v")}
	sq := 900
	switch criterion {
	case 0: // source quality
		sq = []int{900, 899, 100}[level]
	case 1: // type
		r.CT = []string{"text/html;level=2", "text/plain", "text/plain"}[level]
	case 2: // language
		r.CL = []string{"en", "de", "de"}[level]
	case 3: // language order
		r.CL = []string{"en", "fr", ""}[level]
	case 4: // level
		r.CT = []string{"text/html;level=2", "text/html;level=1", "application/json"}[level]
	case 5: // charset
		r.CC = []string{"utf-8", "utf-16", "utf-16"}[level]
	case 6: // iso-8859-1
		r.CC = []string{"utf-8", "iso-8859-1", "ISO-8859-1"}[level]
	case 7: // coding
		r.CE = [][]string{nil, {"deflate"}, {"gzip", "deflate"}}[level]
	case 8: // length
		r.Body = bodyFor(id, []int{8, 9, 5000}[level])
	}
	return r, sq
}

// qGrid are the quality values compared pairwise in the quick tier.
func qGrid() (g []int) {
	for _, q := range []int{1, 2, 3, 4, 5, 9, 10, 11, 49, 50, 51, 99, 100, 101, 499, 500, 501, 990, 995, 998, 999, 1000} {
		g = append(g, q)
	}
	for q := 13; q < 1000; q += 41 {
		g = append(g, q)
	}
	return
}

// languagesUnrelated are not related by any language matching.
var languagesUnrelated = strings.Fields("en fr de es it pt nl sv fi pl ru ja ko zh ar he hi th tr el hu cs ro bg vi da uk lv lt sl fa id")

// longHeaders have up to 32 ranges, one representation matches the i-th and
// another one the j-th of them.
func longHeaders(sizes []int, n negotiator.Negotiator) *Space {
	return &Space{Name: "long headers", Dims: []int{3, len(sizes), 33, 33, 5}, Run: func(d []int, t *T) string {
		f, size, i, j := []int{fAccept, fCharset, fLang}[d[0]], sizes[d[1]], d[2], d[3]
		if i > size || j > size {
			return t.Skip()
		}
		value := func(k int) string {
			switch f {
			case fAccept:
				return fmt.Sprintf("application/x%d", k)
			case fCharset:
				return fmt.Sprintf("windows-%d", 1250+k)
			default:
				return languagesUnrelated[k%32]
			}
		}
		if f == fLang && (i == size || j == size) && size == 32 {
			return t.Skip() // there is no 33rd language
		}
		var rs []Rng
		for k := 0; k < size; k++ {
			q := []int{qNone, 500, 999 - k, 900 + k, 700}[d[4]]
			if d[4] == 4 && k == i {
				q = 0
			}
			rs = append(rs, rng(value(k), q))
		}
		var h Headers
		h.set(f, rs)
		r1, r2 := plain(0), plain(1)
		for r, k := range map[*Rep]int{r1: i, r2: j} {
			switch f {
			case fAccept:
				r.CT = value(k)
			case fCharset:
				r.CC = value(k)
			default:
				r.CL = value(k)
			}
		}
		return bestChoice(n, h, []*Rep{r1, r2}, thousands(2), t)
	}}
}

// twoQ compares two representations that only differ in the quality of one header.
func twoQ(f, q1, q2 int, t *T, n negotiator.Negotiator) string {
	a := []string{"text/html", "en", "utf-8", "gzip"}[f]
	b := []string{"application/json", "fr", "utf-16", "deflate"}[f]
	var h Headers
	h.set(f, []Rng{rng(a, q1), rng(b, q2)})
	r1, r2 := plain(0), plain(1)
	for r, v := range map[*Rep]string{r1: a, r2: b} {
		switch f {
		case fAccept:
			r.CT = v
		case fLang:
			r.CL = v
		case fCharset:
			r.CC = v
		default:
			r.CE = []string{v}
		}
	}
	return bestChoice(n, h, []*Rep{r1, r2}, thousands(2), t)
}

func init() {
	register(&Prop{
		ID:   "P02",
		Rule: "representations that differ in every criterion of the documented Apache httpd order (source x type quality, language, language order, level, charset, not iso-8859-1, content coding, length, first listed) are enumerated; the model compares exact thousandths",
		Assumptions: []string{
			"pairs whose source x type product differs by less than 0.0015 without being multiples of 0.001 are outside of the model",
		},
		Spaces: func(tier string) []*Space {
			n := proactive.New(proactive.DisableNotAcceptableRepresentation())
			big := criteria{
				ct: []string{"text/html;level=1", "text/html;level=2", "application/json", "text/plain", "text/html"},
				cl: []string{"en", "fr", "de", ""}, cc: []string{"utf-8", "iso-8859-1", "utf-16", ""},
				ce: [][]string{nil, {"gzip"}, {"deflate"}}, size: []int{8, 9}, sq: []int{1000, 500},
			}
			small := criteria{
				ct: []string{"text/html;level=2", "application/json"}, cl: []string{"fr", "en"}, cc: []string{"iso-8859-1", "utf-8"},
				ce: [][]string{nil, {"deflate"}}, size: []int{9, 8}, sq: []int{1000},
			}
			levels := criteria{
				ct: []string{"text/html", "text/html;level=0", "text/html;level=3", "text/html;level=10", "text/plain;level=20", "application/json"},
				cl: []string{""}, cc: []string{""}, ce: [][]string{nil}, size: []int{8, 9}, sq: []int{1000},
			}
			sizes := criteria{
				ct: []string{""}, cl: []string{""}, cc: []string{""}, ce: [][]string{nil}, size: []int{5, 6, 9, 10, 99, 100, 256, 65536}, sq: []int{1000},
			}
			if !thorough(tier) {
				big.cl, big.ce = []string{"en", "fr", ""}, [][]string{nil, {"deflate"}}
			}
			g := qGrid()
			longSizes := []int{1, 2, 10, 11, 12, 32}
			if thorough(tier) {
				longSizes = nil
				for i := 1; i <= 32; i++ {
					longSizes = append(longSizes, i)
				}
			}
			out := []*Space{
				{Name: "precedence of two criteria", Dims: []int{criteriaCount, 3, criteriaCount, 3, 2}, Run: func(d []int, t *T) string {
					// the first is worse at d[0], the second at d[2].
					r1, s1 := gradedRep(0, d[0], d[1])
					r2, s2 := gradedRep(1, d[2], d[3])
					reps, sq := []*Rep{r1, r2}, []int{s1, s2}
					if d[4] == 1 {
						reps, sq = []*Rep{r2, r1}, []int{s2, s1}
					}
					return bestChoice(n, criteriaHeaders, reps, sq, t)
				}},
				{Name: "ties and a single better one", Dims: []int{criteriaCount, 2, 26, 26}, Run: func(d []int, t *T) string {
					m, k := d[2]+1, d[3]
					if k >= m {
						return t.Skip()
					}
					var reps []*Rep
					var sq []int
					for i := 0; i < m; i++ {
						lv := 1
						if i == k {
							lv = d[1] * 2 // better, or worse
						}
						r, s := gradedRep(i, d[0], lv)
						reps, sq = append(reps, r), append(sq, s)
					}
					return bestChoice(n, criteriaHeaders, reps, sq, t)
				}},
				{Name: "quality grid", Dims: []int{4, len(g), len(g)}, Run: func(d []int, t *T) string {
					return twoQ(d[0], g[d[1]], g[d[2]], t, n)
				}},
				{Name: "adjacent qualities", Dims: []int{4, 999, 3}, Run: func(d []int, t *T) string {
					return twoQ(d[0], d[1]+1, d[1]+d[2], t, n)
				}},
				{Name: "source qualities", Dims: []int{len(g), len(g), 4}, Run: func(d []int, t *T) string {
					r1, r2 := plain(0), plain(1)
					r1.CT, r2.CT = "text/html", "application/json"
					q := [][2]int{{1000, 1000}, {500, 1000}, {1000, 100}, {200, 300}}[d[2]]
					h := Headers{Accept: []Rng{rng("text/html", q[0]), rng("application/json", q[1])}}
					return bestChoice(n, h, []*Rep{r1, r2}, []int{g[d[0]], g[d[1]]}, t)
				}},
				{Name: "language order", Dims: []int{6, 6, 6, 3, 3}, Run: func(d []int, t *T) string {
					// up to 3 ranges with 2 weights, every order; two languages.
					ls := []string{"en", "fr", "de"}
					var rs []Rng
					used := map[int]bool{}
					for _, x := range d[:3] {
						if used[x/2] {
							return t.Skip()
						}
						used[x/2] = true
						rs = append(rs, rng(ls[x/2], []int{qNone, 500}[x%2]))
					}
					r1, r2 := plain(0), plain(1)
					r1.CL, r2.CL = ls[d[3]], ls[d[4]]
					return bestChoice(n, Headers{Lang: rs}, []*Rep{r1, r2}, thousands(2), t)
				}},
				longHeaders(longSizes, n),
				levels.space("levels, 2 representations", 2, n),
				levels.space("levels, 3 representations", 3, n),
				sizes.space("sizes, 4 representations", 4, n),
				small.space("all criteria, 3 representations", 3, n),
				big.space("all criteria, 2 representations", 2, n),
			}
			if thorough(tier) {
				out = append(out, &Space{Name: "every pair of qualities", Dims: []int{4, 1001, 1001}, Run: func(d []int, t *T) string {
					return twoQ([]int{fAccept, fCharset, fEnc, fLang}[d[0]], d[1], d[2], t, n)
				}},
					&Space{Name: "every pair of source qualities", Dims: []int{1000, 1000, 2}, Run: func(d []int, t *T) string {
						r1, r2 := plain(0), plain(1)
						r1.CT, r2.CT = "text/html", "application/json"
						h := Headers{Accept: []Rng{rng("text/html", []int{1000, 500}[d[2]]), rng("application/json", 1000)}}
						return bestChoice(n, h, []*Rep{r1, r2}, []int{d[0] + 1, d[1] + 1}, t)
					}},
					classSpaceBest("classes of all headers, 2 representations", n),
					small.space("all criteria, 4 representations", 4, n))
			}
			return out
		},
	})
}

func classSpaceBest(name string, n negotiator.Negotiator) *Space {
	return classSpace(name, 2, 3, func(h Headers, reps []*Rep, t *T) string {
		return bestChoice(n, h, reps, thousands(len(reps)), t)
	})
}

package main

import (
	"fmt"

	"github.com/freerware/negotiator/transparent"
)

// rvsaCase compares the algorithm of the library with the model.
func rvsaCase(h Headers, fs []feat, vs []*variant, t *T) string {
	reps := make([]*Rep, len(vs))
	for i, v := range vs {
		reps[i] = v.render()
	}
	hh := h.http()
	featHeader(hh, fs)
	t.Describe(func() any { return describe(hh, reps) })
	want, ok := rvsa(h, fs, vs, t)
	if !ok {
		return t.Skip()
	}
	got, err := transparent.RVSA1().Choose(request(hh, nil), asReps(reps)...)
	t.Exec(1)
	if err != nil {
		return fmt.Sprintf("unexpected error %q", err)
	}
	g := none
	for i, r := range reps {
		if got == any(r) {
			g = i
		}
	}
	if got != nil && g == none {
		return "chose something that was not provided"
	}
	t.Outcome(fmt.Sprintf("chosen %d of %d", g, len(vs)))
	if g != want {
		return fmt.Sprintf("chose %d, the model chooses %d", g, want)
	}
	return ""
}

func vplain(id, sq int) *variant { return &variant{Rep: plain(id), sq: sq} }

// graded are the source qualities of a competitor without any metadata, that
// locate a quality q exactly.
func graded(q, k int) int {
	switch k {
	case 0:
		return 0
	case 1:
		return q
	case 2:
		return q - 1
	case 3:
		return q + 1
	}
	return 1000
}

const gradedN = 5

// against lets a variant compete with a plain one, before or after it.
func against(h Headers, fs []feat, v *variant, q, grade, order int, t *T) string {
	g := graded(q, grade)
	if g < 0 || g > 1000 {
		return t.Skip()
	}
	p := vplain(1, g)
	if order == 0 {
		return rvsaCase(h, fs, []*variant{v, p}, t)
	}
	return rvsaCase(h, fs, []*variant{p, v}, t)
}

func init() {
	register(&Prop{
		ID:   "T02",
		Rule: "remote variant selection: every list of ranges of each header against every attribute value, measured by a competitor with graded source quality; all combinations of header classes with two and three variants; the model computes overall qualities and definiteness",
		Spaces: func(tier string) []*Space {
			var out []*Space
			qs := []int{qNone, 0, 500, 999, 1}
			if thorough(tier) {
				qs = []int{qNone, 0, 500, 999, 1, 1000, 333}
			}
			for f := 0; f < 3; f++ {
				f := f
				nr := []int{7, 6, 4}[f]
				if thorough(tier) {
					nr = len(rangesOf(f))
				}
				rs := cross(rangesOf(f)[:nr], qs)
				for _, len_ := range []int{1, 2} {
					dims := []int{attrCount(f), gradedN, 2}
					for i := 0; i < len_; i++ {
						dims = append(dims, len(rs)+1)
					}
					out = append(out, &Space{Name: fmt.Sprintf("%s, up to %d ranges", fieldNames[f], len_), Dims: dims, Run: func(d []int, t *T) string {
						l, ok := pickList(d[3:], rs)
						if !ok {
							return t.Skip()
						}
						var h Headers
						h.set(f, l)
						v := vplain(0, 1000)
						setAttr(v.Rep, f, d[0])
						q := 1000
						switch f {
						case fAccept:
							q, _ = typeQuality(l, v.CT)
						case fLang:
							q, _, _, _ = langQuality(l, v.CL)
						default:
							q, _ = charsetQuality(l, v.CC)
						}
						return against(h, nil, v, q, d[1], d[2], t)
					}})
				}
				three := cross(rangesOf(f)[:min(nr, 5)], []int{qNone, 0, 500})
				out = append(out, &Space{Name: fmt.Sprintf("%s, 3 ranges", fieldNames[f]), Dims: []int{attrCount(f), 2, len(three), len(three), len(three)}, Run: func(d []int, t *T) string {
					l := []Rng{three[d[2]], three[d[3]], three[d[4]]}
					var h Headers
					h.set(f, l)
					v := vplain(0, 1000)
					setAttr(v.Rep, f, d[0])
					return against(h, nil, v, 400, 1, d[1], t)
				}})
			}
			fsets := [][]feat{nil, {{'e', "tables", ""}}, {{'!', "tables", ""}, {'e', "frames", ""}}}
			elems := []elem{{}, {ps: []pred{{op: 'e', tag: "tables"}}, t: qNone, f: qNone}, {ps: []pred{{op: '!', tag: "tables"}}, t: 1500, f: 500}}
			sqs := []int{1000, 700, 0}
			mk := func(id, attrs, sq, el int) *variant {
				r := plain(id)
				for f := 0; f < 3; f++ {
					classAttr(r, f, attrs%3)
					attrs /= 3
				}
				v := &variant{Rep: r, sq: sqs[sq]}
				if el > 0 {
					v.elems = elems[el : el+1]
				}
				return v
			}
			nc := len(acceptClasses)
			out = append(out, &Space{Name: "all dimensions, 1 variant", Dims: []int{nc, nc, nc, len(fsets), 27, 3, 3}, Run: func(d []int, t *T) string {
				return rvsaCase(classHeaders(d[0], d[1], d[2], 0), fsets[d[3]], []*variant{mk(0, d[4], d[5], d[6])}, t)
			}})
			if thorough(tier) {
				out = append(out, &Space{Name: "all dimensions, 2 variants", Dims: []int{nc, nc, nc, len(fsets), 27, 3, 3, 27, 3, 3}, Run: func(d []int, t *T) string {
					return rvsaCase(classHeaders(d[0], d[1], d[2], 0), fsets[d[3]], []*variant{mk(0, d[4], d[5], d[6]), mk(1, d[7], d[8], d[9])}, t)
				}})
			} else {
				out = append(out, &Space{Name: "all dimensions, 2 variants", Dims: []int{4, 4, 4, 2, 8, 2, 2, 8, 2, 2}, Run: func(d []int, t *T) string {
					cl := []int{0, 1, 2, 5}
					at := []int{0, 1, 3, 4, 9, 12, 13, 26}
					return rvsaCase(classHeaders(cl[d[0]], cl[d[1]], cl[d[2]], 0), fsets[d[3]], []*variant{mk(0, at[d[4]], d[5], d[6]), mk(1, at[d[7]], d[8], d[9])}, t)
				}})
			}
			// improvements beyond 1, of several variants.
			tab, fra := []pred{{op: 'e', tag: "tables"}}, []pred{{op: 'e', tag: "frames"}}
			improved := [][]elem{
				nil,
				{{ps: tab, t: 1500, f: qNone}},
				{{ps: tab, t: 1200, f: 500}},
				{{ps: tab, t: 2000, f: qNone}, {ps: fra, t: 1500, f: 100}},
				{{ps: []pred{{op: '!', tag: "tables"}, {op: 'e', tag: "frames"}}, bag: true, t: 1250, f: 800}},
				{{ps: tab, t: 250, f: 3000}},
			}
			impSQ := []int{1000, 800, 400}
			impN := 3
			if thorough(tier) {
				impN = 4
			}
			impDims := []int{3, 2}
			for i := 0; i < impN; i++ {
				impDims = append(impDims, len(improved)*len(impSQ)*2+1)
			}
			out = append(out, &Space{Name: "improvements beyond 1", Dims: impDims, Run: func(d []int, t *T) string {
				var vs []*variant
				end := false
				for i, k := range d[2:] {
					if k == 0 {
						end = true
						continue
					}
					if end {
						return t.Skip()
					}
					k--
					v := vplain(i, impSQ[k/2%len(impSQ)])
					if k%2 == 1 {
						v.CT = "text/html"
					}
					v.elems = improved[k/2/len(impSQ)]
					vs = append(vs, v)
				}
				fs := [][]feat{{{'e', "tables", ""}}, {{'!', "tables", ""}, {'e', "frames", ""}}, {{'e', "tables", ""}, {'e', "frames", ""}}}[d[0]]
				h := Headers{Accept: [][]Rng{{rng("text/html", qNone)}, {rng("text/html", 900), rng("*/*", 100)}}[d[1]]}
				return rvsaCase(h, fs, vs, t)
			}})
			// order and number: source qualities with ties, every variant has a governing range.
			n := 4
			if thorough(tier) {
				n = 6
			}
			grid := []int{0, 1000, 500, 999, 1, 730}
			dims := []int{3}
			for i := 0; i < n; i++ {
				dims = append(dims, len(grid)+1)
			}
			out = append(out, &Space{Name: "source qualities", Dims: dims, Run: func(d []int, t *T) string {
				var vs []*variant
				end := false
				for i, k := range d[1:] {
					if k == 0 {
						end = true
						continue
					}
					if end {
						return t.Skip()
					}
					v := vplain(i, grid[k-1])
					v.CT = []string{"text/html", "application/json", "text/plain"}[i%3]
					vs = append(vs, v)
				}
				h := Headers{Accept: [][]Rng{
					{rng("text/html", qNone), rng("application/json", qNone), rng("text/plain", qNone)},
					{rng("text/html", 500), rng("application/json", qNone), rng("text/plain", 100)},
					{rng("text/html", 0), rng("application/*", qNone), rng("text/plain", qNone)},
				}[d[0]]}
				return rvsaCase(h, nil, vs, t)
			}})
			return out
		},
	})

	register(&Prop{
		ID:   "T03",
		Rule: "feature negotiation: every set of Accept-Features expressions up to the bound against every predicate, bag and list of elements with every pair of factors; the factor is measured by competitors with graded source quality on both sides",
		Spaces: func(tier string) []*Space {
			exprs := []feat{
				{'e', "dpi", ""}, {'!', "dpi", ""}, {'=', "dpi", "72"}, {'=', "dpi", "300"}, {'n', "dpi", "72"}, {'{', "dpi", "150"}, {'=', "DPI", "low"}, {'=', "dpi", "Low"},
				{'e', "tables", ""}, {'!', "Tables", ""}, {'=', "dpi", `"72"`}, {'=', "dpi", "0"}, {'e', "dp", ""}, {'=', "dpi", "x72"}, {'=', "dpi", "7"},
			}
			preds := []pred{
				{op: 'e', tag: "dpi"}, {op: '!', tag: "dpi"}, {op: '=', tag: "dpi", val: "72"}, {op: 'n', tag: "dpi", val: "72"}, {op: '=', tag: "dpi", val: "low"},
				{op: '=', tag: "Dpi", val: "Low"}, {op: 'n', tag: "dpi", val: "300"},
				{op: '[', tag: "dpi", lo: 72, hi: 300}, {op: '[', tag: "dpi", lo: -1, hi: 100}, {op: '[', tag: "dpi", lo: 100, hi: -1}, {op: '[', tag: "dpi", lo: -1, hi: -1},
				{op: '[', tag: "dpi", lo: 0, hi: 0}, {op: '[', tag: "dpi", lo: 73, hi: 149}, {op: '[', tag: "dpi", lo: 300, hi: 72},
				{op: 'e', tag: "TABLES"}, {op: '!', tag: "tables"}, {op: '=', tag: "tables", val: "1"}, {op: 'n', tag: "tables", val: "1"},
			}
			depth := 3
			if thorough(tier) {
				depth = 4
			}
			pick := func(d []int) ([]feat, bool) {
				var out []feat
				end := false
				for _, k := range d {
					if k == 0 {
						end = true
						continue
					}
					if end {
						return nil, false
					}
					out = append(out, exprs[k-1])
				}
				return out, true
			}
			mk := func(es ...elem) *variant { return &variant{Rep: plain(0), sq: 1000, elems: es} }
			// compare measures the factor q of the variant by a competitor.
			measure := func(fs []feat, v *variant, grade, order int, t *T) string {
				// whether a quoted value is numeric is not specified.
				for _, f := range fs {
					for _, e := range v.elems {
						for _, p := range e.ps {
							if p.op == '[' && len(f.val) > 0 && f.val[0] == '"' {
								return t.Skip()
							}
						}
					}
				}
				x := featuresOf(fs)
				q := int64(1000)
				for _, e := range v.elems {
					q = q * int64(x.factor(e)) / 1000
				}
				if q > 1000 {
					// improvements beyond 1 are measured with a lower source quality.
					v.sq = 250
					q = q / 4
				}
				return against(Headers{}, fs, v, int(q), grade, order, t)
			}
			edims := func(n int) []int {
				var d []int
				for i := 0; i < n; i++ {
					d = append(d, len(exprs)+1)
				}
				return d
			}
			factors := []int{qNone, 0, 500, 1000, 1500, 2000, 999, 250, 10}
			out := []*Space{
				{Name: "one predicate", Dims: append([]int{len(preds), 2}, edims(depth)...), Run: func(d []int, t *T) string {
					fs, ok := pick(d[2:])
					if !ok {
						return t.Skip()
					}
					return measure(fs, mk(elem{ps: []pred{preds[d[0]]}, t: qNone, f: qNone}), []int{0, 4}[d[1]], 0, t)
				}},
				{Name: "factors", Dims: []int{len(preds), 2, len(factors), len(factors), gradedN, 2, len(exprs), len(exprs)}, Run: func(d []int, t *T) string {
					if !thorough(tier) && (d[6]%3 != 0 || d[7]%2 != 0) {
						return t.Skip()
					}
					return measure([]feat{exprs[d[6]], exprs[d[7]]}, mk(elem{ps: []pred{preds[d[0]]}, bag: d[1] == 1, t: factors[d[2]], f: factors[d[3]]}), d[4], d[5], t)
				}},
				{Name: "bags of two", Dims: append([]int{len(preds), len(preds), 2, 2}, edims(2)...), Run: func(d []int, t *T) string {
					fs, ok := pick(d[4:])
					if !ok {
						return t.Skip()
					}
					e := elem{ps: []pred{preds[d[0]], preds[d[1]]}, bag: true, t: qNone, f: qNone}
					if d[3] == 1 {
						e.t, e.f = 800, 400
					}
					return measure(fs, mk(e), []int{0, 2}[d[2]], 0, t)
				}},
				{Name: "lists of two elements", Dims: append([]int{len(preds), len(preds), 2, 4}, edims(2)...), Run: func(d []int, t *T) string {
					fs, ok := pick(d[4:])
					if !ok {
						return t.Skip()
					}
					fa := [][2]int{{qNone, qNone}, {800, 500}, {1500, qNone}, {qNone, 250}}
					e1 := elem{ps: []pred{preds[d[0]]}, t: fa[d[3]][0], f: fa[d[3]][1]}
					e2 := elem{ps: []pred{preds[d[1]]}, bag: d[2] == 1, t: fa[(d[3]+1)%4][0], f: fa[(d[3]+1)%4][1]}
					return measure(fs, mk(e1, e2), 2, 1, t)
				}},
				{Name: "bags of three", Dims: append([]int{len(preds), len(preds), len(preds)}, edims(1)...), Run: func(d []int, t *T) string {
					fs, _ := pick(d[3:])
					return measure(fs, mk(elem{ps: []pred{preds[d[0]], preds[d[1]], preds[d[2]]}, bag: true, t: 900, f: 300}), 2, 0, t)
				}},
			}
			if thorough(tier) {
				out = append(out, &Space{Name: "lists of three elements", Dims: []int{len(preds), len(preds), len(preds), len(exprs), len(exprs)}, Run: func(d []int, t *T) string {
					e := func(k, tr, f int) elem { return elem{ps: []pred{preds[k]}, t: tr, f: f} }
					return measure([]feat{exprs[d[3]], exprs[d[4]]}, mk(e(d[0], 800, 500), e(d[1], qNone, 250), e(d[2], 1200, 900)), 2, 1, t)
				}})
			}
			return out
		},
	})
}

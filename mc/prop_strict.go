package main

import (
	"net/http"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/representation"
)

// strictNegotiator disables strict mode of every header whose flag is false.
func strictNegotiator(strict [3]bool, opts ...proactive.Option) negotiator.Negotiator {
	if !strict[0] {
		opts = append(opts, proactive.DisableStrictAccept())
	}
	if !strict[1] {
		opts = append(opts, proactive.DisableStrictAcceptLanguage())
	}
	if !strict[2] {
		opts = append(opts, proactive.DisableStrictAcceptCharset())
	}
	return proactive.New(opts...)
}

func strictFlags(m int) [3]bool { return [3]bool{m&1 != 0, m&2 != 0, m&4 != 0} }

func strictness(ns []negotiator.Negotiator, m int, h Headers, reps []*Rep, t *T) string {
	t.Describe(func() any {
		return map[string]any{"strict accept, language, charset": strictFlags(m), "input": describe(h.http(), reps)}
	})
	sq := thousands(len(reps))
	reduced, fail, ok := dropped(h, reps, sq, strictFlags(m))
	if !ok {
		return t.Skip()
	}
	want := none
	t.Step("strict", uint64(m), boolBit(fail), boolBit(len(reduced.Accept) == 0), boolBit(len(reduced.Lang) == 0), boolBit(len(reduced.Charset) == 0))
	if !fail {
		if want, ok = apache(reduced, reps, sq, t); !ok {
			return t.Skip()
		}
	}
	rec, err := negotiateAny(ns[m], h.http(), reps)
	t.Exec(1)
	if err == nil && rec.status() == http.StatusNotAcceptable && len(rec.body) != 0 {
		return "body although it is disabled"
	}
	return expectChoice(rec, err, reps, want, t)
}

func boolBit(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// withStrict adds the dimension of the strict mode flags to a space.
func withStrict(mk func(run func(h Headers, reps []*Rep, t *T) string) *Space, run func(m int, h Headers, reps []*Rep, t *T) string) []*Space {
	var out []*Space
	for m := 0; m < 8; m++ {
		m := m
		s := mk(func(h Headers, reps []*Rep, t *T) string { return run(m, h, reps, t) })
		f := strictFlags(m)
		for i, c := range "alc" {
			if f[i] {
				s.Name += " +" + string(c)
			} else {
				s.Name += " -" + string(c)
			}
		}
		out = append(out, s)
	}
	return out
}

// customStrict has algorithms of its own: strict mode does not depend on them.
func customStrict(base int) *Space {
	names := []string{"Accept", "Accept-Language", "Accept-Charset"}
	choosers := []chooserFunc{
		func(_ *http.Request, reps ...representation.Representation) (representation.Representation, error) {
			return reps[0], nil
		},
		func(_ *http.Request, reps ...representation.Representation) (representation.Representation, error) {
			return reps[len(reps)-1], nil
		},
		func(*http.Request, ...representation.Representation) (representation.Representation, error) {
			return nil, nil
		},
		// chooses only without any of the headers.
		func(r *http.Request, reps ...representation.Representation) (representation.Representation, error) {
			for _, n := range names {
				if r.Header.Get(n) != "" {
					return nil, nil
				}
			}
			return reps[len(reps)-1], nil
		},
	}
	ns := make([][]negotiator.Negotiator, len(choosers))
	for i, c := range choosers {
		for m := 0; m < 8; m++ {
			ns[i] = append(ns[i], strictNegotiator(strictFlags(m), proactive.Algorithm(c), proactive.DisableNotAcceptableRepresentation()))
		}
	}
	return &Space{Name: "custom algorithm", Dims: []int{len(choosers), 8, 2, 6, 6, 6, base * base * base, 4}, Run: func(d []int, t *T) string {
		h := classHeaders(d[3], d[4], d[5], 0)
		reps := []*Rep{plain(0)}
		for i, f := range []int{fAccept, fLang, fCharset} {
			classAttr(reps[0], f, []int{d[6] % base, d[6] / base % base, d[6] / base / base}[i])
		}
		if d[7] > 0 {
			// another one that differs from the first one in one attribute.
			r := *reps[0]
			r.ID, r.Body = 1, bodyFor(1, 20)
			classAttr(&r, []int{fAccept, fLang, fCharset}[d[7]-1], 1)
			reps = append(reps, &r)
		}
		t.Describe(func() any {
			return map[string]any{"strict accept, language, charset": strictFlags(d[1]), "algorithm": d[0], "creation": d[2] == 1, "input": describe(h.http(), reps)}
		})
		reduced, fail, ok := dropped(h, reps, thousands(len(reps)), strictFlags(d[1]))
		if !ok {
			return t.Skip()
		}
		want := none
		switch {
		case fail || d[0] == 2:
		case d[0] == 0:
			want = 0
		case d[0] == 1 || len(reduced.Accept)+len(reduced.Lang)+len(reduced.Charset) == 0:
			want = len(reps) - 1
		}
		t.Step("custom", uint64(d[0]), uint64(d[1]), boolBit(fail), uint64(want+1))
		rec, err := negotiate(ns[d[0]][d[1]], request(h.http(), nil), d[2] == 1, asReps(reps)...)
		rec.creation = d[2] == 1
		t.Exec(1)
		return expectChoice(rec, err, reps, want, t)
	}}
}

func init() {
	register(&Prop{
		ID:   "P03",
		Rule: "all 8 strict mode configurations with every combination of header classes and representation attributes; the model answers 406 if a strict header matches nothing, and else disregards the headers that match nothing",
		Assumptions: []string{
			"same language pairs as P01 are outside of the model",
		},
		Spaces: func(tier string) []*Space {
			var ns, all []negotiator.Negotiator
			for m := 0; m < 8; m++ {
				ns = append(ns, strictNegotiator(strictFlags(m), proactive.DisableNotAcceptableRepresentation()))
			}
			all = append(all, ns...)
			all[0] = proactive.New(proactive.DisableStrictMode(), proactive.DisableNotAcceptableRepresentation())
			run := func(m int, h Headers, reps []*Rep, t *T) string { return strictness(ns, m, h, reps, t) }
			runAll := func(m int, h Headers, reps []*Rep, t *T) string { return strictness(all, m, h, reps, t) }
			type runner = func(h Headers, reps []*Rep, t *T) string
			var out []*Space
			out = append(out, withStrict(func(r runner) *Space { return withLangSpace("language and another header, 2 representations", 2, r) }, runAll)...)
			out = append(out, withStrict(func(r runner) *Space { return noLangSpace("3 headers, 1 representation", 1, 3, r) }, run)...)
			out = append(out, withStrict(func(r runner) *Space { return classSpace("all headers, 1 representation", 1, 2, r) }, run)...)
			out = append(out, withStrict(func(r runner) *Space { return noLangSpace("3 headers, 2 representations", 2, 2, r) }, run)...)
			// no content coding: the headers with a strict mode only.
			three := func(n, base int) func(r runner) *Space {
				return func(r runner) *Space {
					k := base * base * base
					dims := []int{6, 6, 6}
					for i := 0; i < n; i++ {
						dims = append(dims, k)
					}
					return &Space{Name: "strict headers", Dims: dims, Run: func(d []int, t *T) string {
						var reps []*Rep
						for i := 0; i < n; i++ {
							p, code := plain(i), d[3+i]
							for _, f := range []int{fAccept, fLang, fCharset} {
								classAttr(p, f, code%base)
								code /= base
							}
							reps = append(reps, p)
						}
						return r(classHeaders(d[0], d[1], d[2], 0), reps, t)
					}}
				}
			}
			if thorough(tier) {
				out = append(out, customStrict(3))
			} else {
				out = append(out, customStrict(2))
			}
			out = append(out, withStrict(three(1, 3), run)...)
			out = append(out, withStrict(three(2, 2), run)...)
			if thorough(tier) {
				out = append(out, withStrict(three(2, 3), run)...)
				out = append(out, withStrict(three(3, 2), run)...)
				out = append(out, withStrict(func(r runner) *Space { return classSpace("all headers, 2 representations", 2, 2, r) }, run)...)
			}
			return out
		},
	})
}

package main

import (
	"bytes"
	"fmt"
	"math"
	"net/http"
	"reflect"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"go.uber.org/zap/zapcore"
)

// requestSpaces cross every scenario with every change of the request that no
// negotiation depends on, and with failures of the environment.
func requestSpaces(tier string, run func(s *scenario, mk func() *faults, t *T) string) []*Space {
	ss, cs := everyScenario(), irrelevantChanges()
	kinds := []string{"rep", "rep0", "rep1", "list", "Choose", "Write"}
	out := []*Space{
		{Name: "requests", Dims: []int{len(ss), len(cs)}, Run: func(d []int, t *T) string {
			s := ss[d[0]].with(cs[d[1]])
			if s == nil {
				return t.Skip()
			}
			return run(s, noFaults, t)
		}},
		{Name: "requests and one failure", Dims: []int{len(ss), len(cs), 10}, Run: func(d []int, t *T) string {
			s := ss[d[0]].with(cs[d[1]])
			if s == nil {
				return t.Skip()
			}
			return run(s, func() *faults { return &faults{mask: 1 << uint(d[2]), from: -1} }, t)
		}},
		{Name: "requests and a failing kind", Dims: []int{len(ss), len(cs), len(kinds)}, Run: func(d []int, t *T) string {
			s := ss[d[0]].with(cs[d[1]])
			if s == nil {
				return t.Skip()
			}
			return run(s, func() *faults { return &faults{kind: kinds[d[2]], from: -1} }, t)
		}},
	}
	if thorough(tier) {
		out = append(out, &Space{Name: "pairs of changes", Dims: []int{len(ss), len(cs), len(cs)}, Run: func(d []int, t *T) string {
			if d[1] >= d[2] {
				return t.Skip()
			}
			s := ss[d[0]].with(cs[d[1]], cs[d[2]])
			if s == nil {
				return t.Skip()
			}
			return run(s, noFaults, t)
		}})
	}
	return out
}

func init() {
	extend("P07", func(tier string) []*Space {
		return requestSpaces(tier, func(s *scenario, mk func() *faults, t *T) string { return runFaults(s, mk(), t) })
	})
	extend("P08", func(tier string) []*Space {
		return requestSpaces(tier, func(s *scenario, mk func() *faults, t *T) string {
			return countOutcomes([]*scenario{s}, []*faults{mk()}, t)
		})
	})
	extend("M01", func(tier string) []*Space {
		return requestSpaces(tier, func(s *scenario, mk func() *faults, t *T) string {
			return observed(s, zapcore.DebugLevel, mk, t)
		})
	})
}

// aspect is an attribute of a representation that an algorithm disregards.
type aspect struct {
	name  string
	apply func(r *Rep)
}

// aspects that no selection algorithm considers, and those that only one of
// them considers.
func aspects(proactive bool) (out []aspect) {
	add := func(name string, f func(r *Rep)) { out = append(out, aspect{name, f}) }
	add("nothing", func(*Rep) {})
	for _, s := range []string{"", "http://h.example/a/a", "http://h.example/a/r", "http://h.example/z/z?q", "https://other.example/", "v", "#"} {
		u := mustURL(s)
		add("location "+s, func(r *Rep) { r.Loc = u })
	}
	for _, b := range []byte{0, '<', 'z', 255} {
		b := b
		add(fmt.Sprintf("content of %d", b), func(r *Rep) {
			x := bytes.Repeat([]byte{b}, len(r.Body))
			copy(x, r.Body[:5]) // which identifies the representation
			r.Body = x
		})
	}
	if proactive {
		for _, f := range [][]string{{"tables"}, {"!tables"}, {"tables", "frames"}, {"x;+0.1-0.1"}, {"[["}, {""}} {
			f := f
			add(fmt.Sprintf("features %q", f), func(r *Rep) { r.CF = f })
		}
		return
	}
	for _, ce := range [][]string{{"gzip"}, {"identity"}, {"gzip", "deflate"}, {"x-unknown"}, {""}} {
		ce := ce
		add(fmt.Sprintf("codings %q", ce), func(r *Rep) { r.CE = ce })
	}
	for _, n := range []int{6, 4000} {
		n := n
		add(fmt.Sprintf("length %d", n), func(r *Rep) { r.Body = bodyFor(r.ID, n) })
	}
	return
}

func init() {
	extend("P02", func(tier string) []*Space {
		as := aspects(true)
		n := proactive.New(proactive.DisableNotAcceptableRepresentation())
		return []*Space{{Name: "attributes without influence", Dims: []int{len(as), len(as), len(as), criteriaCount, 7}, Run: func(d []int, t *T) string {
			if !thorough(tier) && d[0] > 0 && d[1] > 0 && d[2] > 0 {
				return t.Skip()
			}
			var reps []*Rep
			var sq []int
			for i := 0; i < 3; i++ {
				// none, one or two of the representations are better than the rest.
				lv := 1
				if d[4]>>uint(i)&1 == 1 {
					lv = 0
				}
				r, q := gradedRep(i, d[3], lv)
				reps, sq = append(reps, r), append(sq, q)
			}
			for i, r := range reps {
				as[d[i]].apply(r)
			}
			return bestChoice(n, criteriaHeaders, reps, sq, t)
		}}}
	})
	extend("T02", func(tier string) []*Space {
		as := aspects(false)
		hs := []Headers{
			{},
			{Accept: []Rng{rng("text/html", qNone)}, Lang: []Rng{rng("en", qNone)}, Charset: []Rng{rng("utf-8", qNone)}},
			{Accept: []Rng{rng("text/html", 500), rng("*/*", 100)}, Enc: []Rng{rng("gzip", qNone), rng("identity", 0)}},
		}
		qs := []int{1000, 700}
		return []*Space{{Name: "attributes without influence", Dims: []int{len(as), len(as), len(as), len(hs), 8, 2}, Run: func(d []int, t *T) string {
			var vs []*variant
			for i := 0; i < 3; i++ {
				v := vplain(i, qs[d[4]>>uint(i)&1])
				if d[5] == 1 {
					v.CT, v.CL, v.CC = "text/html", "en", "utf-8"
				}
				as[d[i]].apply(v.Rep)
				vs = append(vs, v)
			}
			return rvsaCase(hs[d[3]], nil, vs, t)
		}}}
	})
}

// spare provides the slice with capacity beyond its length, and a function
// that tells whether that was written to.
func spare(s []string) ([]string, func() bool) {
	if s == nil {
		return nil, func() bool { return false }
	}
	x := append(append(make([]string, 0, len(s)+2), s...), "spare", "spare")
	return x[:len(s)], func() bool { return x[len(s)] != "spare" || x[len(s)+1] != "spare" }
}

// unusualMetadata are attributes that an implementation may want to normalise.
func unusualMetadata() (out []aspect) {
	add := func(name string, f func(r *Rep)) { out = append(out, aspect{name, f}) }
	add("nothing", func(*Rep) {})
	for _, ce := range [][]string{{"GZIP"}, {"Identity"}, {"identity", "gzip"}, {"gzip", "identity", "Deflate"}, {"x-gzip", "X-Compress"}, {"gzip", "gzip"}, {" gzip "}, {""}, {"", "gzip"}, {"zz", "br"}, {"gzip;q=0.5"}, {"gzip, deflate"}, {}} {
		ce := ce
		add(fmt.Sprintf("codings %q", ce), func(r *Rep) { r.CE = append([]string{}, ce...) })
	}
	for _, cf := range [][]string{{"Tables"}, {"tables", "TABLES"}, {"z", "a", "m"}, {" tables ", "dpi=[70-80]"}, {""}, {"tables;+1.5", ""}, {"[a b !c]"}, {}} {
		cf := cf
		add(fmt.Sprintf("features %q", cf), func(r *Rep) { r.CF = append([]string{}, cf...) })
	}
	for _, ct := range []string{"TEXT/HTML", "Text/Html; Charset=UTF-8", "text/html;level=01", "*/*", "text", "text/html;", " text/html "} {
		ct := ct
		add("type "+ct, func(r *Rep) { r.CT = ct })
	}
	for _, cl := range []string{"EN", "en_US", "mul", "iw", "*", " en "} {
		cl := cl
		add("language "+cl, func(r *Rep) { r.CL = cl })
	}
	for _, cc := range []string{"UTF-8", "utf8", "latin1", "*", " utf-8 "} {
		cc := cc
		add("charset "+cc, func(r *Rep) { r.CC = cc })
	}
	for _, s := range []string{"HTTP://H.EXAMPLE/a/v", "http://h.example/a/../b/./v", "http://u:p@h.example:80/a/v?x=1#f", "v", ""} {
		u := mustURL(s)
		add("location "+s, func(r *Rep) { r.Loc = u })
	}
	for _, q := range []float32{0, -1, 2, float32(math.NaN()), float32(math.Inf(1))} {
		q := q
		add(fmt.Sprintf("quality %v", q), func(r *Rep) { r.SQ = q })
	}
	add("no body", func(r *Rep) { r.Body = nil })
	return
}

func init() {
	extend("P10", func(tier string) []*Space {
		as := unusualMetadata()
		ns := []struct {
			name string
			n    negotiator.Negotiator
		}{{"proactive", proactive.New()}, {"not strict", proactive.New(proactive.DisableStrictMode())}, {"transparent", transparent.New()}, {"reactive", reactive.New()}}
		heads := []http.Header{
			{},
			{"Negotiate": {"1.0"}, "Accept": {" TEXT/html ; Q=0.5 ,, text/*", "*/*;q=0.1"}, "Accept-Language": {"fr;q=0.1, EN"}, "Accept-Charset": {"*, utf-8;q=0"}, "Accept-Encoding": {"GZIP;q=0.1, *"}, "Accept-Features": {"!a, TABLES", "dpi=75,dpi=72"}},
			{"Negotiate": {"trans"}, "Accept": {"image/png"}},
			{"Negotiate": {"guess-small"}, "Accept": {"application/xml, text/yaml;q=0.1"}, "Accept-Encoding": {"identity;q=0, gzip"}},
			{"negotiate": {"*"}, "accept": {"text/html"}, "Accept-Language": {}, "Accept-Charset": nil},
		}
		same := func(a, b *Rep) bool {
			x, y := *a, *b
			if x.SQ != x.SQ && y.SQ != y.SQ {
				x.SQ, y.SQ = 0, 0
			}
			return reflect.DeepEqual(&x, &y)
		}
		return []*Space{{Name: "unusual inputs", Dims: []int{len(ns), len(heads), len(as), len(as)}, Run: func(d []int, t *T) string {
			mk := func() (reps []*Rep) {
				reps = negotiatedReps()[:3]
				as[d[2]].apply(reps[0])
				as[d[3]].apply(reps[1])
				return
			}
			reps, before := mk(), mk()
			t.Describe(func() any { return map[string]any{"negotiator": ns[d[0]].name, "input": describe(heads[d[1]], before)} })
			var written []func() bool
			for _, r := range reps {
				var f func() bool
				r.CE, f = spare(r.CE)
				written = append(written, f)
				r.CF, f = spare(r.CF)
				written = append(written, f)
			}
			h := heads[d[1]].Clone()
			for k := range h {
				var f func() bool
				h[k], f = spare(h[k])
				written = append(written, f)
			}
			args := make([]representation.Representation, len(reps), len(reps)+2)
			for i, r := range reps {
				args[i] = r
			}
			first := ""
			// the answer to the second, identical request is the same.
			for round := 0; round < 2; round++ {
				rec, err := negotiate(ns[d[0]].n, request(h, nil), false, args...)
				t.Exec(1)
				ans := rec.render() + fmt.Sprint(err)
				if round == 0 {
					first = ans
				}
				t.Outcome(fmt.Sprintf("%s %d", ns[d[0]].name, rec.status()))
				t.Step("unusual", uint64(d[0]), uint64(d[1]), uint64(d[2]), uint64(d[3]))
				for i, r := range reps {
					if args[i] != representation.Representation(r) {
						return "the order of the representations was changed"
					}
					if !same(r, before[i]) {
						return fmt.Sprintf("representation %d was changed from %v to %v", i, before[i], r)
					}
				}
				for i := len(reps); i < cap(args); i++ {
					if args[:cap(args)][i] != nil {
						return "the array of the representations was written to"
					}
				}
				for k := range h {
					if fmt.Sprintf("%q", h[k]) != fmt.Sprintf("%q", heads[d[1]][k]) {
						return fmt.Sprintf("header %s of the request was changed to %q", k, h[k])
					}
				}
				if len(h) != len(heads[d[1]]) {
					return "the headers of the request were changed"
				}
				for _, f := range written {
					if f() {
						return "the array of an input was written to"
					}
				}
				if ans != first {
					return fmt.Sprintf("answered %q at first, then %q", first, ans)
				}
			}
			return ""
		}}}
	})
}

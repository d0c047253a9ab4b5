package main

import (
	"fmt"
	"net/http"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
	"go.uber.org/zap"
)

// The model of a configuration is the last value that was given to each setting.
type pcfg struct {
	strict  [3]bool
	body    bool
	lists   []string
	def     string
	chooser int // 0 the default algorithm, else the index of the representation
}

func defaultP() pcfg {
	return pcfg{strict: [3]bool{true, true, true}, body: true, lists: []string{"application/json", "application/xml", "application/yaml"}, def: "application/json"}
}

func pickIndex(i int) representation.Chooser {
	return chooserFunc(func(_ *http.Request, rs ...representation.Representation) (representation.Representation, error) {
		if i < len(rs) {
			return rs[i], nil
		}
		return nil, nil
	})
}

type popt struct {
	name  string
	opt   func() proactive.Option
	apply func(c *pcfg)
}

func proactiveOptions() []popt {
	scope := tally.NewTestScope("", nil)
	return []popt{
		{"-", nil, nil},
		{"DisableStrictAccept", func() proactive.Option { return proactive.DisableStrictAccept() }, func(c *pcfg) { c.strict[0] = false }},
		{"DisableStrictAcceptLanguage", func() proactive.Option { return proactive.DisableStrictAcceptLanguage() }, func(c *pcfg) { c.strict[1] = false }},
		{"DisableStrictAcceptCharset", func() proactive.Option { return proactive.DisableStrictAcceptCharset() }, func(c *pcfg) { c.strict[2] = false }},
		{"DisableStrictMode", func() proactive.Option { return proactive.DisableStrictMode() }, func(c *pcfg) { c.strict = [3]bool{} }},
		{"DisableNotAcceptableRepresentation", func() proactive.Option { return proactive.DisableNotAcceptableRepresentation() }, func(c *pcfg) { c.body = false }},
		{"Representations(yaml)", func() proactive.Option { return proactive.Representations(newList("application/yaml", nil)) }, func(c *pcfg) { c.lists = []string{"application/yaml"} }},
		{"Representations(html, yaml, xml, json)", func() proactive.Option {
			return proactive.Representations(newList("text/html", nil), newList("application/yaml", nil), newList("application/xml", nil), newList("application/json", nil))
		}, func(c *pcfg) {
			c.lists = []string{"text/html", "application/yaml", "application/xml", "application/json"}
		}},
		{"Representations()", func() proactive.Option { return proactive.Representations() }, func(c *pcfg) { c.lists = nil }},
		{"DefaultRepresentation(xml)", func() proactive.Option { return proactive.DefaultRepresentation(newList("application/xml", nil)) }, func(c *pcfg) { c.def = "application/xml" }},
		{"Algorithm(second)", func() proactive.Option { return proactive.Algorithm(pickIndex(1)) }, func(c *pcfg) { c.chooser = 1 }},
		{"Algorithm(none)", func() proactive.Option { return proactive.Algorithm(pickIndex(99)) }, func(c *pcfg) { c.chooser = 99 }},
		{"Algorithm(httpd)", func() proactive.Option { return proactive.Algorithm(proactive.ApacheHTTPD()) }, func(c *pcfg) { c.chooser = 0 }},
		{"Logger", func() proactive.Option { return proactive.Logger(zap.NewNop()) }, func(c *pcfg) {}},
		{"Scope", func() proactive.Option { return proactive.Scope(scope) }, func(c *pcfg) {}},
	}
}

// optionRequests tell the configurations apart.
var optionRequests = []Headers{
	{},
	{Accept: []Rng{rng("image/png", qNone)}},
	{Lang: []Rng{rng("de", qNone)}},
	{Charset: []Rng{rng("utf-16", qNone)}},
	{Accept: []Rng{rng("image/png", qNone)}, Lang: []Rng{rng("fr", qNone)}},
	{Enc: []Rng{rng("identity", 0)}},
	{Accept: []Rng{rng("application/yaml", qNone), rng("image/png", qNone)}},
	{Accept: []Rng{rng("application/*", qNone)}, Lang: []Rng{rng("en-US", qNone)}},
	{Accept: []Rng{rng("application/json", 700), rng("application/xml", 800), rng("application/yaml", 100)}, Lang: []Rng{rng("en-US", qNone)}},
	{Accept: []Rng{rng("application/json", 900), rng("application/xml", 100), rng("application/yaml", 200)}, Lang: []Rng{rng("en-US", qNone)}},
}

func (c pcfg) decide(h Headers, reps []*Rep, t *T) (string, int, bool) {
	sq := thousands(len(reps))
	choose := func(h Headers, reps []*Rep) (int, bool) {
		if c.chooser == 0 {
			return apache(h, reps, make([]int, len(reps)), t)
		}
		if c.chooser < len(reps) {
			return c.chooser, true
		}
		return none, true
	}
	reduced, fail, ok := dropped(h, reps, sq, c.strict)
	if !ok {
		return "", 0, false
	}
	if !fail {
		var i int
		if c.chooser == 0 {
			i, ok = apache(reduced, reps, sq, t)
		} else {
			i, ok = choose(h, reps)
		}
		if !ok {
			return "", 0, false
		}
		if i != none {
			return "200", i, true
		}
	}
	if !c.body {
		return "406 empty", none, true
	}
	i, ok := choose(h, modelLists(c.lists, listLens(c.lists, reps)))
	if !ok {
		return "", 0, false
	}
	if i == none {
		return "406 " + c.def, none, true
	}
	return "406 " + c.lists[i], none, true
}

func init() {
	register(&Prop{
		ID:   "O01",
		Rule: "every sequence of options up to the depth configures an instance, together with other instances; every request class is answered as the configuration of the model (the last value of each setting) demands; custom choosers see every call",
		Spaces: func(tier string) []*Space {
			opts := proactiveOptions()
			depth := 3
			if thorough(tier) {
				depth = 4
			}
			dims := make([]int, 0)
			for i := 0; i < depth; i++ {
				dims = append(dims, len(opts))
			}
			dims = append(dims, len(optionRequests))
			reps := func() []*Rep {
				r1, r2 := plain(0), plain(1)
				r1.CT, r1.CL, r1.CC = "text/html", "en-US", "utf-8"
				r2.CT, r2.CL, r2.CC = "application/json", "fr", "iso-8859-1"
				return []*Rep{r1, r2}
			}
			type topt struct {
				name  string
				opt   func() transparent.Option
				apply func(max, threshold *int, list *string, chooser *int)
			}
			topts := []topt{
				{"-", nil, nil},
				{"max 1", func() transparent.Option { return transparent.MaximumVariantListSize(1) }, func(m, th *int, l *string, c *int) { *m = 1 }},
				{"max 0", func() transparent.Option { return transparent.MaximumVariantListSize(0) }, func(m, th *int, l *string, c *int) { *m = 1 }},
				{"max 3", func() transparent.Option { return transparent.MaximumVariantListSize(3) }, func(m, th *int, l *string, c *int) { *m = 3 }},
				{"threshold 0", func() transparent.Option { return transparent.GuessSmallThreshold(0) }, func(m, th *int, l *string, c *int) { *th = 0 }},
				{"threshold 10000", func() transparent.Option { return transparent.GuessSmallThreshold(10000) }, func(m, th *int, l *string, c *int) { *th = 10000 }},
				{"list yaml", func() transparent.Option { return transparent.ListRepresentation(newList("application/yaml", nil)) }, func(m, th *int, l *string, c *int) { *l = "application/yaml" }},
				{"second", func() transparent.Option { return transparent.RVSA(pickIndex(1)) }, func(m, th *int, l *string, c *int) { *c = 1 }},
				{"rvsa", func() transparent.Option { return transparent.RVSA(transparent.RVSA1()) }, func(m, th *int, l *string, c *int) { *c = 0 }},
				{"scope", func() transparent.Option { return transparent.Scope(tally.NoopScope) }, func(m, th *int, l *string, c *int) {}},
			}
			tdims := make([]int, depth)
			for i := range tdims {
				tdims[i] = len(topts)
			}
			tdims = append(tdims, 4, 3)
			return []*Space{
				{Name: "proactive options", Dims: dims, Run: func(d []int, t *T) string {
					c := defaultP()
					var os []proactive.Option
					var names []string
					for _, k := range d[:depth] {
						if opts[k].opt == nil {
							continue
						}
						names = append(names, opts[k].name)
						os = append(os, opts[k].opt())
						opts[k].apply(&c)
					}
					h := optionRequests[d[depth]]
					rs := reps()
					t.Describe(func() any { return map[string]any{"options": names, "input": describe(h.http(), rs)} })
					want, i, ok := c.decide(h, rs, t)
					if !ok {
						return t.Skip()
					}
					// other instances do not matter.
					other := proactive.New(proactive.DisableStrictMode(), proactive.DisableNotAcceptableRepresentation(), proactive.Algorithm(pickIndex(0)))
					_, _ = negotiate(other, request(h.http(), nil), false, asReps(rs)...)
					// the options configure any number of instances.
					for k := 0; k < 2; k++ {
						rec, err := negotiate(proactive.New(os...), request(h.http(), nil), false, asReps(rs)...)
						t.Exec(1)
						if err != nil {
							return fmt.Sprintf("unexpected error %q", err)
						}
						if m := protocol(rec, err); m != "" {
							return m
						}
						t.Outcome(want)
						got := fmt.Sprint(rec.status())
						if rec.status() == 406 {
							got = "406 " + rec.get("Content-Type")
							if len(rec.body) == 0 {
								got = "406 empty"
							} else if m := checkList(rec.get("Content-Type"), rec.body, rs); m != "" {
								return m
							}
						}
						if got != want {
							return fmt.Sprintf("answered %s, the configuration demands %s", got, want)
						}
						if i != none && served(rec, rs) != i {
							return fmt.Sprintf("served #%d, the configuration demands #%d", served(rec, rs), i)
						}
					}
					return ""
				}},
				{Name: "transparent options", Dims: tdims, Run: func(d []int, t *T) string {
					max, th, list, ch := 10, 50, "application/json", 0
					var os []transparent.Option
					var names []string
					for _, k := range d[:depth] {
						if topts[k].opt == nil {
							continue
						}
						names = append(names, topts[k].name)
						os = append(os, topts[k].opt())
						topts[k].apply(&max, &th, &list, &ch)
					}
					nreps := []int{1, 2, 3, 11}[d[depth]]
					header := http.Header{"Negotiate": {[]string{"trans", "1.0", "guess-small"}[d[depth+1]]}, "Accept": {"text/html"}}
					var rs []*Rep
					for i := 0; i < nreps; i++ {
						r := plain(i)
						r.CT = "text/html"
						r.Body = bodyFor(i, 3000)
						rs = append(rs, r)
					}
					t.Describe(func() any { return map[string]any{"options": names, "input": describe(header, rs)} })
					want := 300
					switch {
					case nreps > max:
						want = 0
					case d[depth+1] == 0 || ch >= nreps:
					case d[depth+1] == 2 && 3000 > listLens([]string{list}, rs)[0]+th:
					default:
						want = 200
					}
					t.Step("transparent", uint64(max), uint64(th), uint64(ch), hashStr(list), uint64(nreps))
					_, _ = negotiate(transparent.New(transparent.MaximumVariantListSize(1)), request(header, nil), false, asReps(rs)...)
					for k := 0; k < 2; k++ {
						rec, err := negotiate(transparent.New(os...), request(header.Clone(), nil), false, asReps(rs)...)
						t.Exec(1)
						t.Outcome(fmt.Sprint("transparent ", want))
						if m := protocol(rec, err); m != "" {
							return m
						}
						if (err != nil) != (want == 0) || rec.status() != want {
							return fmt.Sprintf("answered %d (error %v), the configuration demands %d", rec.status(), err, want)
						}
						if want == 300 {
							if rec.get("Content-Type") != list {
								return fmt.Sprintf("list is of type %q, the configuration demands %q", rec.get("Content-Type"), list)
							}
							if m := checkList(list, rec.body, rs); m != "" {
								return m
							}
						}
						if want == 200 && served(rec, rs) != ch {
							return fmt.Sprintf("served #%d, the configuration demands #%d", served(rec, rs), ch)
						}
					}
					return ""
				}},
				{Name: "reactive options", Dims: []int{5, 5, 5, 4}, Run: func(d []int, t *T) string {
					list := "application/json"
					var os []reactive.Option
					for _, k := range d[:3] {
						switch k {
						case 1:
							os, list = append(os, reactive.Representation(newList("application/xml", nil))), "application/xml"
						case 2:
							os, list = append(os, reactive.Representation(newList("text/yaml", nil))), "text/yaml"
						case 3:
							os = append(os, reactive.Scope(tally.NoopScope))
						case 4:
							os = append(os, reactive.Logger(zap.NewNop()))
						}
					}
					rs := resource(d[3])
					t.Describe(func() any { return map[string]any{"options": d[:3], "input": describe(nil, rs)} })
					_, _ = negotiate(reactive.New(reactive.Representation(newList("text/html", nil))), request(nil, nil), false, asReps(rs)...)
					for k := 0; k < 2; k++ {
						rec, err := negotiate(reactive.New(os...), request(nil, nil), false, asReps(rs)...)
						t.Exec(1)
						t.Step("reactive", hashStr(list), uint64(d[3]))
						if err != nil {
							return fmt.Sprintf("unexpected error %q", err)
						}
						if m := protocol(rec, err); m != "" {
							return m
						}
						t.Outcome(fmt.Sprint("reactive ", rec.status()))
						if len(rs) == 0 {
							if rec.status() != 204 || len(rec.body) > 0 {
								return fmt.Sprintf("status %d without representations", rec.status())
							}
							continue
						}
						if rec.status() != 300 || rec.get("Content-Type") != list {
							return fmt.Sprintf("answered %d with %q, the configuration demands 300 with %q", rec.status(), rec.get("Content-Type"), list)
						}
						if m := checkList(list, rec.body, rs); m != "" {
							return m
						}
					}
					return ""
				}},
				{Name: "custom choosers", Dims: []int{5, 6, 2, 3}, Run: func(d []int, t *T) string {
					// the chooser gets the request and all representations, in order.
					n, pick := d[0]+1, d[1]
					rs := resource(n)
					req := request(http.Header{"Negotiate": {"*"}, "X-Custom": {"1"}}, nil)
					msg := ""
					calls := 0
					ch := chooserFunc(func(r *http.Request, reps ...representation.Representation) (representation.Representation, error) {
						calls++
						if calls > 1 {
							return nil, nil
						}
						if r != req && (r.URL.String() != req.URL.String() || r.Header.Get("X-Custom") != "1") {
							msg = "the chooser got another request"
						}
						if len(reps) != n {
							msg = fmt.Sprintf("the chooser got %d of %d representations", len(reps), n)
							return nil, nil
						}
						for i := range reps {
							if reps[i] != representation.Representation(rs[i]) {
								msg = "the chooser got the representations in another order"
							}
						}
						if pick < n {
							return reps[pick], nil
						}
						if d[2] == 1 {
							return nil, errInjected
						}
						return nil, nil
					})
					var ng negotiator.Negotiator = proactive.New(proactive.Algorithm(ch))
					if d[3] == 1 {
						ng = transparent.New(transparent.RVSA(ch))
						for _, r := range rs {
							r.Loc = mustURL("http://h.example/a/v")
						}
					}
					if d[3] == 2 {
						ng = proactive.New(proactive.Algorithm(ch), proactive.DisableStrictMode(), proactive.DisableNotAcceptableRepresentation())
					}
					t.Describe(func() any { return describe(req.Header, rs) })
					rec, err := negotiate(ng, req, false, asReps(rs)...)
					t.Exec(1)
					t.Step("chooser", uint64(n), uint64(pick), uint64(d[2]))
					t.Outcome(fmt.Sprint("chooser ", rec.status()))
					if msg != "" {
						return msg
					}
					if calls == 0 {
						return "the chooser was not consulted"
					}
					switch {
					case pick < n:
						if err != nil || rec.status() != 200 || served(rec, rs) != pick {
							return fmt.Sprintf("status %d error %v, the chooser chose #%d", rec.status(), err, pick)
						}
					case d[2] == 1:
						if err != errInjected || !rec.untouched() {
							return fmt.Sprintf("status %d error %v, the chooser failed", rec.status(), err)
						}
					default:
						want := []int{406, 300, 406}[d[3]]
						if err != nil || rec.status() != want {
							return fmt.Sprintf("status %d error %v, the chooser chose none", rec.status(), err)
						}
					}
					return ""
				}},
			}
		},
	})
}

package main

import (
	"fmt"
	"net/http"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/representation"
)

// listClasses are headers with regard to the list of a 406 response, none of
// them accepts the representations of the resource.
var listAccept = [][]Rng{
	nil,
	{rng("application/json", qNone)}, {rng("application/xml", qNone)}, {rng("application/yaml", qNone)},
	{rng("application/xml", 900), rng("application/yaml", 800)}, {rng("application/json", 100), rng("application/yaml", 101)},
	{rng("application/*", qNone)}, {rng("*/*", qNone), rng("application/json", 0)}, {rng("text/*", qNone)}, {rng("audio/ogg", qNone)},
	{rng("application/json", 0), rng("application/xml", 0), rng("application/*", 500)}, {rng("application/*", 0)},
}
var listLang = [][]Rng{nil, {rng("en-US", qNone)}, {rng("de", qNone)}, {rng("*", 500)}, {rng("en-US", 0)}, {rng("en", qNone)}}
var listCharset = [][]Rng{nil, {rng("ascii", qNone)}, {rng("utf-8", qNone)}, {rng("*", 300)}, {rng("ascii", 0), rng("utf-8", qNone)}}
var listEnc = [][]Rng{nil, {rng("gzip", qNone)}, {rng("identity", 0)}, {rng("*", 0)}, {rng("*", 0), rng("identity", 100)}, {rng("gzip", 500), rng("identity", 400)}}

// modelLists are the candidates of a 406 response, as the model sees them.
func modelLists(types []string, lens []int) []*Rep {
	var out []*Rep
	for i, ct := range types {
		out = append(out, &Rep{ID: i, CT: ct, CL: "en-US", CC: "ascii", CE: []string{"identity"}, Body: make([]byte, lens[i]), SQ: 1})
	}
	return out
}

func listLens(types []string, reps []*Rep) (lens []int) {
	for _, ct := range types {
		b, err := newList(ct, nil)(asReps(reps)...).Bytes()
		must(err)
		lens = append(lens, len(b))
	}
	return
}

// unacceptable are representations that P04 requests never accept: an audio
// type that no header of listAccept matches, and images.
func resource(n int) []*Rep {
	var reps []*Rep
	for i := 0; i < n; i++ {
		r := plain(i)
		r.CT = []string{"video/mp4", "video/webm;codecs=vp8", "video/x-matroska"}[i%3]
		r.CL = []string{"es", "", "pt-BR"}[i%3]
		r.CC = []string{"koi8-r", "utf-16", ""}[i%3]
		r.CE = [][]string{{"zstd"}, nil, {"zstd", "br"}}[i%3]
		r.CF = [][]string{nil, {"tables", "!frames"}, {"dpi=[0-72];+1.5"}}[i%3]
		r.SQ = []float32{1, 0.3, 0.75}[i%3]
		r.Loc = mustURL([]string{"http://h.example/a/v.mp4", "http://h.example/a/v?x=1&y=%3C2%3E", ""}[i%3])
		reps = append(reps, r)
	}
	return reps
}

// notAcceptable decides a 406 response with a list.
func notAcceptableList(n negotiator.Negotiator, h Headers, reps []*Rep, types []string, def string, t *T) string {
	t.Describe(func() any { return describe(h.http(), reps) })
	lists := modelLists(types, listLens(types, reps))
	chosen, ok := apache(h, lists, make1000or0(len(lists)), t)
	if !ok {
		return t.Skip()
	}
	want := def
	if chosen != none {
		want = types[chosen]
	}
	t.Step("format", hashStr(want))
	rec, err := negotiateAny(n, h.http(), reps)
	t.Exec(1)
	if err != nil {
		return fmt.Sprintf("unexpected error %q", err)
	}
	if m := protocol(rec, err); m != "" {
		return m
	}
	if rec.status() != http.StatusNotAcceptable {
		return fmt.Sprintf("status %d", rec.status())
	}
	t.Outcome("406 " + want)
	if got := rec.get("Content-Type"); got != want {
		return fmt.Sprintf("list is of type %q, the model provides %q", got, want)
	}
	if rec.get("Content-Length") != fmt.Sprint(len(rec.body)) {
		return "Content-Length is not the length of the list"
	}
	return checkList(want, rec.body, reps)
}

// the source quality of lists is 0 for all of them, it does not matter.
func make1000or0(n int) []int { return make([]int, n) }

func init() {
	register(&Prop{
		ID:   "P04",
		Rule: "every combination of header classes that leaves nothing acceptable, for every number of representations and list configuration; the model chooses the list format with the documented algorithm, an independent decoder reads the list",
		Spaces: func(tier string) []*Space {
			def := proactive.New()
			types := []string{"application/json", "application/xml", "application/yaml"}
			maxReps := 4
			if thorough(tier) {
				maxReps = 13
			}
			// every selection and order of up to 3 of 4 formats, and every default.
			formats := []string{"application/json", "application/xml", "application/yaml", "text/yaml", "text/html"}
			type cfg struct {
				n     negotiator.Negotiator
				types []string
				def   string
			}
			var cfgs []cfg
			var gen func(sel []string)
			gen = func(sel []string) {
				for _, d := range formats {
					var cs []representation.ListConstructor
					for _, f := range sel {
						cs = append(cs, newList(f, nil))
					}
					cfgs = append(cfgs, cfg{proactive.New(proactive.Representations(cs...), proactive.DefaultRepresentation(newList(d, nil))), append([]string{}, sel...), d})
				}
				if len(sel) == 3 {
					return
				}
			next:
				for _, f := range formats {
					for _, s := range sel {
						if s == f {
							continue next
						}
					}
					gen(append(append([]string{}, sel...), f))
				}
			}
			gen(nil)
			never := rng("audio/ogg", qNone)
			cfgAccept := [][]Rng{{never}, {rng("application/json", qNone)}, {rng("application/xml", qNone), rng("application/yaml", 500)}, {rng("text/*", qNone)}, {rng("application/*", 500), rng("text/html", qNone)}}
			disabled := proactive.New(proactive.DisableNotAcceptableRepresentation())
			return []*Space{
				{Name: "list format", Dims: []int{len(listAccept), len(listLang), len(listCharset), len(listEnc), maxReps}, Run: func(d []int, t *T) string {
					h := Headers{listAccept[d[0]], listLang[d[1]], listCharset[d[2]], listEnc[d[3]]}
					reps := resource(d[4] + 1)
					if all, ok := score(h, reps, thousands(len(reps))); ok {
						for _, s := range all {
							if s.acceptable() {
								return t.Skip()
							}
						}
					} else {
						return t.Skip()
					}
					return notAcceptableList(def, h, reps, types, "application/json", t)
				}},
				{Name: "kinds of representations", Dims: []int{4, archetypes + 1, archetypes + 1, archetypes + 1, archetypes + 1}, Run: func(d []int, t *T) string {
					reps, ok := archetypesOf(d[1:])
					if !ok || len(reps) == 0 {
						return t.Skip()
					}
					for _, r := range reps {
						if r.CT == "" {
							r.CT = "video/mp4" // something that the request does not accept
						}
					}
					h := Headers{Accept: [][]Rng{{rng("audio/ogg", qNone)}, {rng("application/xml", qNone)}, {rng("application/yaml", 1)}, {rng("application/*", 900)}}[d[0]]}
					return notAcceptableList(def, h, reps, types, "application/json", t)
				}},
				{Name: "configured formats", Dims: []int{len(cfgs), len(cfgAccept), 2}, Run: func(d []int, t *T) string {
					c := cfgs[d[0]]
					return notAcceptableList(c.n, Headers{Accept: cfgAccept[d[1]]}, resource(d[2]+1), c.types, c.def, t)
				}},
				{Name: "number of representations", Dims: []int{60, 3}, Run: func(d []int, t *T) string {
					h := Headers{Accept: []Rng{[]Rng{never, rng("application/xml", qNone), rng("application/yaml", qNone)}[d[1]]}}
					return notAcceptableList(def, h, resource(d[0]+1), types, "application/json", t)
				}},
				{Name: "disabled", Dims: []int{len(listAccept), len(listLang), len(listCharset), 3}, Run: func(d []int, t *T) string {
					h := Headers{Accept: listAccept[d[0]], Lang: listLang[d[1]], Charset: listCharset[d[2]], Enc: []Rng{rng("gzip", qNone), rng("*", 0)}}
					reps := resource(d[3] + 1)
					for _, r := range reps {
						r.CE = []string{"br"}
					}
					t.Describe(func() any { return describe(h.http(), reps) })
					rec, err := negotiateAny(disabled, h.http(), reps)
					t.Exec(1)
					t.Step("disabled", uint64(d[0]), uint64(d[1]))
					t.Outcome("406 empty")
					if err != nil {
						return fmt.Sprintf("unexpected error %q", err)
					}
					if m := protocol(rec, err); m != "" {
						return m
					}
					if rec.status() != http.StatusNotAcceptable || len(rec.body) != 0 {
						return fmt.Sprintf("status %d with %d bytes, the model answers 406 without a body", rec.status(), len(rec.body))
					}
					return ""
				}},
			}
		},
	})
	register(&Prop{
		ID:   "L01",
		Rule: "lists of every combination of metadata values are serialised in every format and content coding, and read by an independent decoder, as well as by the library itself",
		Spaces: func(tier string) []*Space {
			formats := []string{"application/json", "application/xml", "application/yaml", "text/yaml", "text/html", "application/json;charset=utf-8", "Application/JSON", "application/yaml ; v=1"}
			vals := []string{"", "text/html", `a"b<c>&'d`, "ünïcode ✓", "- x: y #z", "true", "0123", "a,b;c={d}", "~", "1e3", " x ", "a\nb\tc", "identity", "UTF-8", "en-GB"}
			lists := [][]string{nil, {"gzip"}, {"a", "b", "a"}, {"x y", "<&>\""}, {"null", "no"}, {"{ k: v }", "[1]"}, {"identity"}, {"identity", "gzip"}, {"X-GZIP", "deflate", "compress", "br"}, {""}, {"x", "", "x"}, {" a ", "b\nc"}}
			sqs := []float32{1, 0, 0.5, 0.3, 0.123, 0.999}
			locs := []string{"", "http://h.example/a/v", "http://h.example/a%20b/v?x=1&y=<2>", "/rel", "http://[::1]:8080/x#frag", "urn:isbn:1"}
			check := func(ct string, reps []*Rep, t *T) string {
				t.Describe(func() any { return map[string]any{"list type": ct, "representations": describe(nil, reps)} })
				l := representation.List{}
				l.SetContentType(ct)
				l.SetRepresentations(asReps(reps)...)
				b, err := l.Bytes()
				t.Exec(1)
				if err != nil {
					return fmt.Sprintf("unexpected error %q", err)
				}
				t.Step("list", hashStr(ct), hashStr(string(b)))
				t.Outcome(ct)
				if m := checkList(ct, b, reps); m != "" {
					return m
				}
				back := representation.List{}
				back.SetContentType(ct)
				if err := back.FromBytes(b); err != nil {
					return fmt.Sprintf("reading the list back: %v", err)
				}
				if len(back.Representations) != len(reps) {
					return fmt.Sprintf("read back %d entries for %d representations", len(back.Representations), len(reps))
				}
				for i, m := range back.Representations {
					got := meta{m.ContentType, m.ContentLanguage, m.ContentCharset, m.ContentLocation, m.ContentEncoding, m.ContentFeatures, float64(m.SourceQuality)}
					if !got.same(metaOf(reps[i])) {
						return fmt.Sprintf("read back %+v for %+v", got, metaOf(reps[i]))
					}
				}
				return ""
			}
			mk := func(id int, ct, cl, cc, ce, cf, sq, loc int) *Rep {
				return &Rep{ID: id, CT: vals[ct], CL: vals[cl], CC: vals[cc], CE: lists[ce], CF: lists[cf], SQ: sqs[sq], Loc: mustURL(locs[loc])}
			}
			out := []*Space{
				{Name: "strings", Dims: []int{len(formats), len(vals), len(vals), len(vals), len(locs)}, Run: func(d []int, t *T) string {
					return check(formats[d[0]], []*Rep{mk(0, d[1], d[2], d[3], 1, 0, 0, d[4])}, t)
				}},
				{Name: "lists and qualities", Dims: []int{len(formats), len(lists), len(lists), len(sqs), len(vals)}, Run: func(d []int, t *T) string {
					return check(formats[d[0]], []*Rep{mk(0, d[4], 0, 0, d[1], d[2], d[3], 1)}, t)
				}},
				{Name: "every source quality", Dims: []int{len(formats), 1001}, Run: func(d []int, t *T) string {
					r := mk(0, 1, 0, 0, 0, 0, 0, 1)
					r.SQ = float32(d[1]) / 1000
					return check(formats[d[0]], []*Rep{r}, t)
				}},
				{Name: "number and order", Dims: []int{len(formats), 5, 5, 5, 5}, Run: func(d []int, t *T) string {
					var reps []*Rep
					ended := false
					for i, k := range d[1:] {
						if k == 0 {
							ended = true
							continue
						}
						if ended {
							return t.Skip()
						}
						reps = append(reps, mk(i, k, (k+1)%4, 0, k%3, (k+1)%3, k, k))
					}
					return check(formats[d[0]], reps, t)
				}},
			}
			out = append(out, &Space{Name: "kinds of representations", Dims: []int{len(formats), archetypes + 1, archetypes + 1, archetypes + 1, archetypes + 1}, Run: func(d []int, t *T) string {
				reps, ok := archetypesOf(d[1:])
				if !ok {
					return t.Skip()
				}
				return check(formats[d[0]], reps, t)
			}})
			// a string in every field that has one.
			everywhere := func(x string) *Rep {
				return &Rep{CT: x, CL: x + "a", CC: "b" + x, CE: []string{x, "gzip", x + x}, CF: []string{"f" + x + "g", x}, SQ: 0.5, Loc: mustURL("http://h.example/a/v")}
			}
			out = append(out, &Space{Name: "scale: every character", Dims: []int{4, 0x3100 + 0x400 + 64}, Run: func(d []int, t *T) string {
				c := rune(d[1])
				switch {
				case d[1] >= 0x3500:
					c = 0x10000 + rune(d[1]-0x3500)*0x3fff
				case d[1] >= 0x3100:
					c = 0xff00 - 0x300 + rune(d[1]-0x3100)
				}
				if !plainRune(c) {
					return t.Skip()
				}
				return check(formats[[]int{0, 1, 2, 4}[d[0]]], []*Rep{everywhere(string(c))}, t)
			}})
			ls := scale(1 << 12)
			out = append(out, &Space{Name: "scale: long strings", Dims: []int{4, len(ls), 3, 3}, Run: func(d []int, t *T) string {
				x := longName(ls[d[1]], d[2], "b <"[d[3]])
				return check(formats[[]int{0, 1, 2, 4}[d[0]]], []*Rep{everywhere(x)}, t)
			}})
			ns := scale(257)
			out = append(out, &Space{Name: "scale: numbers of entries, codings and features", Dims: []int{4, len(ns), 3}, Run: func(d []int, t *T) string {
				n := ns[d[1]]
				reps := []*Rep{everywhere("x")}
				for i := 0; i < n; i++ {
					switch d[2] {
					case 0:
						reps = append(reps, everywhere(fmt.Sprint("x", i)))
					case 1:
						reps[0].CE = append(reps[0].CE, fmt.Sprint("c", i))
					case 2:
						reps[0].CF = append(reps[0].CF, fmt.Sprint("f", i))
					}
				}
				return check(formats[[]int{0, 1, 2, 4}[d[0]]], reps, t)
			}})
			if thorough(tier) {
				out = append(out, &Space{Name: "all values of a representation", Dims: []int{len(formats), len(vals), len(vals), len(lists), len(lists), len(locs)}, Run: func(d []int, t *T) string {
					return check(formats[d[0]], []*Rep{mk(0, d[1], d[2], d[2], d[3], d[4], d[3], d[5])}, t)
				}})
			}
			return out
		},
	})
}

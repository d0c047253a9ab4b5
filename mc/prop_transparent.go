package main

import (
	"bytes"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// altEntry is a variant description of an Alternates header.
type altEntry struct {
	uri     string
	quality float64
	attrs   map[string]string
}

// parseAlternates is an independent reader of the Alternates header of RFC2295.
func parseAlternates(s string) (entries []altEntry, fallback []string, err error) {
	i := 0
	ws := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t') {
			i++
		}
	}
	bad := func(what string) error {
		return fmt.Errorf("%s expected at %d", what, i)
	}
	for {
		ws()
		if i == len(s) {
			return
		}
		if s[i] == ',' {
			i++
			continue
		}
		if s[i] != '{' {
			return nil, nil, bad("{")
		}
		i++
		ws()
		if i == len(s) || s[i] != '"' {
			return nil, nil, bad("quoted URI")
		}
		i++
		var uri []byte
		for i < len(s) && s[i] != '"' {
			if s[i] == '\\' && i+1 < len(s) {
				i++
			}
			uri = append(uri, s[i])
			i++
		}
		if i == len(s) {
			return nil, nil, bad("closing quote")
		}
		e := altEntry{uri: string(uri), attrs: map[string]string{}}
		i++
		ws()
		if i < len(s) && s[i] == '}' {
			i++
			fallback = append(fallback, e.uri)
			continue
		}
		j := i
		for j < len(s) && s[j] != ' ' && s[j] != '{' && s[j] != '}' {
			j++
		}
		if e.quality, err = strconv.ParseFloat(s[i:j], 64); err != nil {
			return nil, nil, err
		}
		i = j
		for {
			ws()
			if i == len(s) {
				return nil, nil, bad("}")
			}
			if s[i] == '}' {
				i++
				break
			}
			if s[i] != '{' {
				return nil, nil, bad("attribute")
			}
			i++
			ws()
			j = i
			for j < len(s) && s[j] != ' ' && s[j] != '}' {
				j++
			}
			k := s[i:j]
			quoted := false
			i = j
			for j < len(s) && (quoted || s[j] != '}') {
				if s[j] == '"' {
					quoted = !quoted
				}
				j++
			}
			if j == len(s) {
				return nil, nil, bad("}")
			}
			if _, dup := e.attrs[k]; dup {
				return nil, nil, fmt.Errorf("attribute %q twice", k)
			}
			e.attrs[k] = strings.TrimSpace(s[i:j])
			i = j + 1
		}
		entries = append(entries, e)
	}
}

// checkAlternates tells whether the header describes the complete variant list.
func checkAlternates(v []string, reps []*Rep, fallback bool) string {
	if len(v) == 0 {
		return "no Alternates header"
	}
	es, fb, err := parseAlternates(strings.Join(v, ","))
	if err != nil {
		return fmt.Sprintf("Alternates %q: %v", v, err)
	}
	if len(es) != len(reps) {
		return fmt.Sprintf("Alternates describes %d variants of %d", len(es), len(reps))
	}
	for i, e := range es {
		r := reps[i]
		if e.uri != r.Loc.String() {
			return fmt.Sprintf("variant %d: URI %q, the representation is at %q", i, e.uri, r.Loc.String())
		}
		if d := e.quality - float64(r.SQ); d > 0.00051 || d < -0.00051 {
			return fmt.Sprintf("variant %d: quality %g, the representation has %g", i, e.quality, r.SQ)
		}
		want := map[string]string{"type": r.CT, "charset": r.CC, "language": r.CL, "features": strings.Join(r.CF, " "), "length": strconv.Itoa(len(r.Body))}
		for k, w := range want {
			if e.attrs[k] != w {
				return fmt.Sprintf("variant %d: %s %q, the representation has %q", i, k, e.attrs[k], w)
			}
		}
	}
	switch {
	case fallback && (len(fb) != 1 || fb[0] != reps[0].Loc.String()):
		return fmt.Sprintf("fallback variants %q, expected the first one", fb)
	case !fallback && len(fb) != 0:
		return fmt.Sprintf("fallback variants %q in a choice response", fb)
	}
	return ""
}

// tcnResponse checks a transparently negotiated response: want is the index of
// the choice, none for a list response.
func tcnResponse(rec *Recorder, err error, reps []*Rep, want int, list *Rep) string {
	if err != nil {
		return fmt.Sprintf("unexpected error %q", err)
	}
	if m := protocol(rec, err); m != "" {
		return m
	}
	got := "nothing"
	if v := rec.snapshot.Values("TCN"); len(v) == 1 {
		got = v[0]
	}
	if want == none {
		if rec.status() != http.StatusMultipleChoices || got != "list" {
			return fmt.Sprintf("status %d, TCN %s: the model provides a list response", rec.status(), got)
		}
		if list != nil && !bytes.Equal(rec.body, list.Body) {
			return "the body of the list response is not the list"
		}
		if list == nil {
			if m := checkList(rec.get("Content-Type"), rec.body, reps); m != "" {
				return m
			}
		}
	} else {
		if rec.status() != http.StatusOK || got != "choice" {
			return fmt.Sprintf("status %d, TCN %s: the model provides a choice response", rec.status(), got)
		}
		r := reps[want]
		if !bytes.Equal(rec.body, r.Body) {
			return fmt.Sprintf("body %q, the choice is %q", rec.body, r.Body)
		}
		for k, w := range map[string]string{"Content-Type": r.CT, "Content-Language": r.CL, "Content-Charset": r.CC, "Content-Location": r.Loc.String(), "Content-Encoding": strings.Join(r.CE, ",")} {
			if rec.get(k) != w {
				return fmt.Sprintf("%s %q, the choice has %q", k, rec.get(k), w)
			}
		}
	}
	if m := consistent(rec); m != "" {
		return m
	}
	return checkAlternates(rec.snapshot.Values("Alternates"), reps, want == none)
}

// directives of the Negotiate header, and whether they let the server choose.
var directives = []struct {
	v             string
	choose, guess bool
}{
	{"trans", false, false}, {"1.0", true, false}, {"guess-small", true, true}, {"*", true, false}, {"vlist", false, false},
	{"2.0", false, false}, {"Guess-Small", true, true}, {"x-ext", false, false}, {"0.9", false, false}, {"guess", false, false}, {"GUESS-SMALL", true, true},
}

// location is a URL in parts, with its canonical form.
type location struct {
	url.URL
	text, origin string
	dir          string
}

func segments(path string) string {
	i := strings.LastIndexByte(path, '/')
	var out []string
	for _, s := range strings.Split(path[:max(i, 0)], "/") {
		var b strings.Builder
		for k := 0; k < len(s); k++ {
			if s[k] == '%' {
				n, err := strconv.ParseUint(s[k+1:k+3], 16, 8)
				must(err)
				fmt.Fprintf(&b, "<%02x>", n)
				k += 2
				continue
			}
			fmt.Fprintf(&b, "<%02x>", s[k])
		}
		out = append(out, b.String())
	}
	return strings.Join(out, "/")
}

func locations(tier string) (out []location) {
	schemes := []string{"http", "HTTPS", "https", "Http"}
	hosts := []string{"h.example", "H.Example", "o.example", "h.example.org", "[::1]"}
	ports := []string{"", ":80", ":443", ":8080", ":"}
	paths := []string{"", "/", "/r", "/a/r", "/a/", "/a", "/A/r", "/a%2Fb/r", "/a/b/r", "/%61/r", "/ab/r", "/a%20b/r", "/a/b%2Fr", "/a/b/"}
	paths = append(paths, "/a//r", "//r", "/a/../r", "/a/./r", "/a/b/../r", "/./r")
	if thorough(tier) {
		paths = append(paths, "/a/r/", "/%C3%BC/r", "/ü/r", "/a;x=1/r", "/a;x/r")
	}
	suffixes := []string{"", "?q=/x/y", "#/f/g"}
	k := 0
	for _, s := range schemes {
		for _, h := range hosts {
			for _, p := range ports {
				for _, pa := range paths {
					text := s + "://" + h + p + pa + suffixes[k%3]
					k++
					u, err := url.Parse(text)
					must(err)
					port := strings.TrimPrefix(p, ":")
					if port == "" {
						port = map[bool]string{true: "443", false: "80"}[strings.EqualFold(s, "https")]
					}
					out = append(out, location{*u, text, strings.ToLower(s) + " " + strings.ToLower(h) + " " + port, segments(pa)})
				}
			}
		}
	}
	return
}

func relatives() (out []location) {
	for i, pa := range []string{"/r", "/a/r", "/a/", "/a", "/A/r", "/a%2Fb/r", "/a/b/r", "/%61/r", "/ab/r", "/a/b%2Fr", "/", "/v?x=/a/b/c", "/a/v?x=1", "/a//r", "/a//", "/a///r", "/a/../r", "/a/./r", "/a/b/../r", "/./r", "/../r", "/a/.", "/a/..", "/a/...", "/a/r/", "/%C3%BC/r", "/ü/r", "/%c3%bc/r", "/a;x=1/r", "/a;x/r", "/a+b/r", "/a%2Bb/r", "/a%2bb/r", "/a%2fb/r", "/a%252Fb/r"} {
		u, err := url.Parse(pa)
		must(err)
		out = append(out, location{*u, pa, "relative", segments(strings.SplitN(pa, "?", 2)[0])})
		_ = i
	}
	return
}

func init() {
	at := func(n int) []*Rep {
		var reps []*Rep
		for i := 0; i < n; i++ {
			r := plain(i)
			r.CT = []string{"text/html", "application/json", "text/plain"}[i%3]
			r.Loc = mustURL(fmt.Sprintf("http://h.example/a/v%d", i))
			reps = append(reps, r)
		}
		return reps
	}
	register(&Prop{
		ID:   "T01",
		Rule: "every sequence of Negotiate directives (in one or in several lines), every outcome of the selection algorithm, sizes around every threshold, neighbors and strangers; the model decides between list, choice and error, an independent reader checks the complete response",
		Spaces: func(tier string) []*Space {
			errChoose := errors.New("no choice")
			depth := 3
			if thorough(tier) {
				depth = 5
			}
			if !thorough(tier) {
				depth = 4
			}
			dims := []int{2, 4, 3}
			for i := 0; i < depth; i++ {
				dims = append(dims, len(directives)+1)
			}
			out := []*Space{{Name: "directives", Dims: dims, Run: func(d []int, t *T) string {
				var ds []string
				choose, guess, end := false, false, false
				for _, k := range d[3:] {
					if k == 0 {
						end = true
						continue
					}
					if end {
						return t.Skip()
					}
					x := directives[k-1]
					ds = append(ds, x.v)
					choose, guess = choose || x.choose, guess || x.guess
				}
				hh := http.Header{}
				if len(ds) > 0 {
					if d[0] == 0 {
						hh["Negotiate"] = []string{strings.Join(ds, ", ")}
					} else {
						hh["Negotiate"] = ds
					}
				}
				reps := at(3)
				// the list is smaller than the choice by more than the threshold, smaller by less, or larger.
				list := &Rep{ID: 50, CT: "application/x-list", Body: bodyFor(50, 40)}
				size := []int{91, 90, 20}[d[2]]
				called := 0
				for _, r := range reps {
					r.Body = bodyFor(r.ID, size)
				}
				ch := chooserFunc(func(_ *http.Request, rs ...representation.Representation) (representation.Representation, error) {
					called++
					switch d[1] {
					case 0:
						return nil, nil
					case 1:
						return nil, errChoose
					}
					return rs[d[1]-1], nil
				})
				n := transparent.New(transparent.RVSA(ch), transparent.ListRepresentation(func(...representation.Representation) representation.Representation { return list }))
				t.Describe(func() any { return describe(hh, reps) })
				rec, err := negotiateAny(n, hh, reps)
				t.Exec(1)
				t.Step("directives", b2u(choose), b2u(guess), uint64(d[1]), uint64(d[2]))
				if choose != (called > 0) {
					return fmt.Sprintf("the algorithm was called %d times, allowed: %v", called, choose)
				}
				want := none
				if choose {
					if d[1] == 1 {
						t.Outcome("error")
						if !errors.Is(err, errChoose) {
							return fmt.Sprintf("error %v, the algorithm failed", err)
						}
						return protocol(rec, err)
					}
					if d[1] >= 2 && (!guess || d[2] > 0) {
						want = d[1] - 1
					}
				}
				t.Outcome(fmt.Sprintf("choice %d", want))
				return tcnResponse(rec, err, reps, want, list)
			}}}
			// sizes.
			thresholds := []int{-2, 0, 1, 2, 7, 20, 49, 50, 51} // -2: not configured
			out = append(out, &Space{Name: "sizes", Dims: []int{len(thresholds), 140, 3, 4}, Run: func(d []int, t *T) string {
				th := thresholds[d[0]]
				choice, listSize := d[1]+5, []int{5, 60, 100}[d[2]]
				neg := []string{"guess-small", "1.0, guess-small", "guess-small;", "*"}[d[3]]
				if d[3] == 2 {
					return t.Skip()
				}
				var o []transparent.Option
				eff := 50
				if th >= 0 {
					o = append(o, transparent.GuessSmallThreshold(th))
					eff = th
				}
				reps := at(2)
				reps[1].Body = bodyFor(1, choice)
				list := &Rep{ID: 50, CT: "application/x-list", Body: bodyFor(50, listSize)}
				o = append(o, transparent.RVSA(pickIndex(1)), transparent.ListRepresentation(func(...representation.Representation) representation.Representation { return list }))
				hh := http.Header{"Negotiate": {neg}}
				t.Describe(func() any { return describe(hh, reps) })
				rec, err := negotiateAny(transparent.New(o...), hh, reps)
				t.Exec(1)
				want := none
				if d[3] == 3 || choice-listSize <= eff {
					want = 1
				}
				t.Step("sizes", uint64(choice), uint64(listSize), uint64(eff), b2u(want == none))
				t.Outcome(fmt.Sprintf("choice %d", want))
				return tcnResponse(rec, err, reps, want, list)
			}})
			// the default algorithm and the default list, with an outcome that the request decides.
			neg := []string{"", "trans", "1.0", "*", "guess-small", "vlist", "1.0, vlist", "guess-small, trans"}
			nc := len(acceptClasses)
			out = append(out, &Space{Name: "default algorithm", Dims: []int{len(neg), nc, nc, nc, 27, 27, 3}, Run: func(d []int, t *T) string {
				if !thorough(tier) && (d[4]%2 == 1 || d[5]%4 != 1) {
					return t.Skip()
				}
				h := classHeaders(d[1], d[2], d[3], 0)
				hh := h.http()
				if neg[d[0]] != "" {
					hh["Negotiate"] = []string{neg[d[0]]}
				}
				var vs []*variant
				var reps []*Rep
				for i, c := range []int{d[4], d[5]} {
					r := plain(i)
					for f := 0; f < 3; f++ {
						classAttr(r, f, c%3)
						c /= 3
					}
					r.Loc = mustURL(fmt.Sprintf("http://h.example/a/v%d", i))
					v := &variant{Rep: r, sq: []int{1000, 700}[i]}
					if d[6] == 2 && i == 0 {
						v.sq = 400
					}
					if d[6] == 1 {
						r.Loc = mustURL("http://h.example/other/v")
					}
					vs = append(vs, v)
					reps = append(reps, v.render())
				}
				t.Describe(func() any { return describe(hh, reps) })
				want := none
				if strings.ContainsAny(neg[d[0]], "10*g") && d[6] != 1 {
					var ok bool
					if want, ok = rvsa(h, nil, vs, t); !ok {
						return t.Skip()
					}
				}
				rec, err := negotiateAny(transparentDefault, hh, reps)
				t.Exec(1)
				t.Outcome(fmt.Sprintf("choice %d", want))
				return tcnResponse(rec, err, reps, want, nil)
			}})
			return out
		},
	})

	register(&Prop{
		ID:   "T04",
		Rule: "list and choice responses for every combination of metadata values and every number of variants; an independent reader of RFC2295 syntax compares the Alternates header with the variants",
		Spaces: func(tier string) []*Space {
			cts := []string{"", "text/html", "text/html;charset=utf-8", `text/plain;x="a}b"`, "application/vnd.a+json;v=1;w=2"}
			strs := []string{"", "en-US", "utf-8", "x,y"}
			feats := [][]string{nil, {"tables"}, {"tables", "!frames", "dpi=[72-300]"}, {"[a b=c !d];+1.5-0.5", "x!=y"}}
			locs := []string{"", "http://h.example/a/v", "http://h.example/a/v,w;x=1?y=1&z=%22{}%22", "/a/%7Bb%7D", "http://h.example/a/%C3%BC"}
			// qualities of four and more digits are outside of the header's precision.
			sqs := []float32{1, 0, 0.5, 0.001, 0.999, 0.25, 0.333}
			sizes := []int{5, 9, 10, 1000, 70000}
			ls := scale(1 << 12)
			run := func(reps []*Rep, choice int, t *T) string {
				hh := http.Header{"Negotiate": {"*"}}
				n := transparent.New(transparent.MaximumVariantListSize(100), transparent.RVSA(pickIndex(choice)))
				want := choice
				if choice < 0 || choice >= len(reps) {
					hh = http.Header{"Negotiate": {"trans"}}
					want = none
				}
				t.Describe(func() any { return describe(hh, reps) })
				u := reqURL
				if want != none {
					u = reps[want].Loc
				}
				rec, err := negotiate(n, request(hh, &u), false, asReps(reps)...)
				t.Exec(1)
				for _, r := range reps {
					t.Step("variant", hashStr(r.String()))
				}
				t.Outcome(fmt.Sprintf("several variants %v, choice %v", len(reps) > 1, want != none))
				return tcnResponse(rec, err, reps, want, nil)
			}
			mk := func(id, ct, cl, cc, cf, loc, sq, size int) *Rep {
				return &Rep{ID: id, CT: cts[ct], CL: strs[cl], CC: strs[cc], CF: feats[cf], Loc: mustURL(locs[loc]), SQ: sqs[sq], Body: bodyFor(id, sizes[size]), CE: [][]string{nil, {"gzip"}}[id%2]}
			}
			var odd []url.URL
			for _, s := range []string{`http://h.example/a/v?x="y"`, `http://h.example/a/v?"`, `http://h.example/a/v?x=\y`, `http://h.example/a/v?x=\"`, "http://h.example/a/v?x={}&y=} {", "http://h.example/a/v?a,b;c", "http://h.example/a/v?x=%22%5C#f",
				`http://h.example/a/v#"f"`, "http://u:p@h.example/a/v", "http://h.example:80/a/v", "HTTP://H.Example/a/v", "http://h.example/a/../a/./v", "http://h.example/a//v", "http://h.example/a/v?", "http://h.example/a/v?x=ü", "http://h.example/a/ü", "http://[::1]:8080/a/v",
				"urn:x:y", "mailto:x@h.example", "//h.example/a/v", "v", "./v", "?x", "#f", "*", "http://h.example/a/v?x=<b>'`|^", "http://h.example/a/v%0d%0aX:%20y"} {
				odd = append(odd, mustURL(s))
			}
			oddFeats := [][]string{nil, {`x="y"`}, {`x="a b"`, `y="}"`}, {"x=\u00fc"}, {"*"}, {""}, {"tables", "tables"}, {"TABLES", "Dpi=[-]"}}
			out := []*Space{
				{Name: "unusual locations and features", Dims: []int{len(odd), len(oddFeats), 2, len(odd), 3}, Run: func(d []int, t *T) string {
					r := mk(0, 1, 1, 2, 0, 1, 0, 0)
					r.Loc, r.CF = odd[d[0]], oddFeats[d[1]]
					reps := []*Rep{r}
					if d[2] == 1 {
						x := mk(1, 1, 1, 2, 1, 1, 0, 0)
						x.Loc = odd[d[3]]
						reps = append(reps, x)
					} else if d[3] > 0 {
						return t.Skip()
					}
					choice := d[4] - 1
					if choice >= 0 && choice < len(reps) && reps[choice].Loc.Host != "h.example" {
						return t.Skip() // T05 decides whether it is sent
					}
					return run(reps, choice, t)
				}},
				{Name: "one variant", Dims: []int{len(cts), len(strs), len(strs), len(feats), len(locs), len(sqs), 3, 2}, Run: func(d []int, t *T) string {
					return run([]*Rep{mk(0, d[0], d[1], d[2], d[3], d[4], d[5], d[6])}, d[7]-1, t)
				}},
				{Name: "every source quality", Dims: []int{1001, 2}, Run: func(d []int, t *T) string {
					r := mk(0, 1, 1, 2, 0, 1, 0, 0)
					r.SQ = float32(d[0]) / 1000
					return run([]*Rep{r}, d[1]-1, t)
				}},
				{Name: "every length", Dims: []int{300, 2}, Run: func(d []int, t *T) string {
					r := mk(0, 1, 1, 2, 0, 1, 0, 0)
					r.Body = bodyFor(0, d[0]*d[0]/3)
					return run([]*Rep{r}, d[1]-1, t)
				}},
				{Name: "two variants", Dims: []int{len(cts), len(strs), len(feats), len(locs), 3, len(cts), len(strs), len(feats), len(locs), 3}, Run: func(d []int, t *T) string {
					if !thorough(tier) && (d[0]+d[1]+d[2]+d[3]+d[4]+d[5]+d[6]+d[7]+d[8])%3 != 0 {
						return t.Skip()
					}
					return run([]*Rep{mk(0, d[0], d[1], (d[1]+1)%4, d[2], d[3], d[3], d[1]%4), mk(1, d[5], d[6], (d[6]+2)%4, d[7], d[8], d[8], (d[6]+1)%4)}, d[4]+d[9]-1, t)
				}},
				{Name: "kinds of variants", Dims: []int{5, archetypes + 1, archetypes + 1, archetypes + 1, archetypes + 1}, Run: func(d []int, t *T) string {
					reps, ok := archetypesOf(d[1:])
					if !ok || len(reps) == 0 {
						return t.Skip()
					}
					return run(reps, d[0]-1, t)
				}},
				{Name: "scale: long metadata", Dims: []int{5, len(ls), 2, 3}, Run: func(d []int, t *T) string {
					r := mk(0, 1, 1, 2, 0, 1, 0, 0)
					x := longName(ls[d[1]], d[3], 'b')
					switch d[0] {
					case 0:
						r.CT = "text/" + x
					case 1:
						r.CL = x
					case 2:
						r.CC = x
					case 3:
						r.CF = []string{"tables", x, x + "=[1-2];+1.5"}
					case 4:
						r.Loc = mustURL("http://h.example/a/" + x)
					}
					return run([]*Rep{r, mk(1, 1, 1, 2, 0, 1, 0, 0)}[:1+d[3]%2], d[2]-1, t)
				}},
				{Name: "scale: number of features", Dims: []int{len(scale(257)), 2}, Run: func(d []int, t *T) string {
					r := mk(0, 1, 1, 2, 0, 1, 0, 0)
					for i := 0; i < scale(257)[d[0]]; i++ {
						r.CF = append(r.CF, fmt.Sprintf("f%d", i))
					}
					return run([]*Rep{r}, d[1]-1, t)
				}},
				{Name: "scale: lengths", Dims: []int{len(scale(1 << 21)), 2, 2}, Run: func(d []int, t *T) string {
					r := mk(0, 1, 1, 2, 0, 1, 0, 0)
					r.Body = bodyFor(0, scale(1 << 21)[d[0]])
					return run([]*Rep{r, mk(1, 1, 1, 2, 0, 1, 0, 0)}[:1+d[2]], d[1]-1, t)
				}},
				{Name: "number of variants", Dims: []int{100, 101}, Run: func(d []int, t *T) string {
					if d[1] > d[0]+1 {
						return t.Skip()
					}
					var reps []*Rep
					for i := 0; i <= d[0]; i++ {
						reps = append(reps, mk(i, i%len(cts), i%4, (i/2)%4, (i/3)%4, 1+i%4, i%7, i%3))
					}
					return run(reps, d[1]-1, t)
				}},
			}
			return out
		},
	})

	register(&Prop{
		ID:   "T05",
		Rule: "every pair of resource and variant URL built from schemes, hosts, ports, paths, queries and fragments; the model compares canonical origins and decoded directory segments",
		Spaces: func(tier string) []*Space {
			n := transparent.New(transparent.RVSA(pickIndex(0)))
			check := func(a, b location, t *T) string {
				r := plain(0)
				r.Loc = b.URL
				reps := []*Rep{r, plain(1)}
				hh := http.Header{"Negotiate": {"1.0"}}
				t.Describe(func() any { return map[string]any{"resource": a.text, "variant": b.text} })
				want := none
				if a.origin == b.origin && a.dir == b.dir {
					want = 0
				}
				t.Step("neighbor", hashStr(a.origin+a.dir), hashStr(b.origin+b.dir))
				rec, err := negotiate(n, request(hh, &a.URL), false, asReps(reps)...)
				t.Exec(1)
				t.Outcome(fmt.Sprintf("neighbor %v", want == 0))
				if err != nil {
					return fmt.Sprintf("unexpected error %q", err)
				}
				got := none
				if rec.status() == http.StatusOK {
					got = 0
				}
				if got != want {
					return fmt.Sprintf("status %d for variant %q of resource %q, neighbor per model: %v", rec.status(), b.text, a.text, want == 0)
				}
				return ""
			}
			ls, rs := locations(tier), relatives()
			return []*Space{
				{Name: "absolute", Dims: []int{len(ls), len(ls)}, Run: func(d []int, t *T) string { return check(ls[d[0]], ls[d[1]], t) }},
				{Name: "relative", Dims: []int{len(rs), len(rs)}, Run: func(d []int, t *T) string { return check(rs[d[0]], rs[d[1]], t) }},
			}
		},
	})

	register(&Prop{
		ID:   "T06",
		Rule: "every number of variants against every configured maximum (also values below 1, and later options), for every kind of request",
		Spaces: func(tier string) []*Space {
			negs := []http.Header{{"Negotiate": {"*"}}, {"Negotiate": {"trans"}}, {}, {"Negotiate": {"guess-small"}}, {"Negotiate": {""}}, {"Negotiate": {"*"}, "Accept": {"nonsense;;"}}}
			top := 24
			if thorough(tier) {
				top = 70
			}
			bound := func(n, configured, neg, opts int, t *T) string {
				d := []int{n, configured, neg, opts}
				var o []transparent.Option
				limit := 10
				if d[1] > 0 {
					limit = d[1] - 3
					o = append(o, transparent.MaximumVariantListSize(limit))
				}
				if limit < 1 {
					limit = 1
				}
				switch d[3] {
				case 1:
					o = append(o, transparent.GuessSmallThreshold(5))
				case 2:
					o = append([]transparent.Option{transparent.MaximumVariantListSize(33)}, o...)
					if d[1] == 0 {
						limit = 33
					}
				}
				reps := at(d[0])
				t.Describe(func() any { return map[string]any{"limit": limit, "variants": d[0], "request": negs[d[2]]} })
				rec, err := negotiate(transparent.New(o...), request(negs[d[2]], nil), false, asReps(reps)...)
				t.Exec(1)
				t.Step("bound", uint64(d[0]), uint64(limit))
				switch {
				case d[0] == 0:
					t.Outcome("no content")
					if err != nil || rec.status() != http.StatusNoContent || len(rec.body) != 0 {
						return fmt.Sprintf("error %v, status %d for an empty variant list", err, rec.status())
					}
				case d[0] > limit:
					t.Outcome("exceeded")
					if !errors.Is(err, transparent.ErrVariantListSizeExceeded) {
						return fmt.Sprintf("error %v, the variant list exceeds the maximum", err)
					}
				default:
					t.Outcome("negotiated")
					if errors.Is(err, transparent.ErrVariantListSizeExceeded) {
						return fmt.Sprintf("%d variants exceed the maximum of %d", d[0], limit)
					}
					if err == nil && d[2] < 4 {
						if want := none; true {
							if rec.status() == http.StatusOK {
								want = 0
							}
							return tcnResponse(rec, err, reps, want, nil)
						}
					}
				}
				return protocol(rec, err)
			}
			ss := scale(130)
			limits := append(scale(1030), 1<<16, 1<<31-1, 1<<32, 1<<40, 1<<62)
			return []*Space{
				{Name: "bound", Dims: []int{top, top + 3, len(negs), 3}, Run: func(d []int, t *T) string { return bound(d[0], d[1], d[2], d[3], t) }},
				{Name: "scale: bound", Dims: []int{len(ss), len(limits), len(negs)}, Run: func(d []int, t *T) string {
					return bound(ss[d[0]], limits[d[1]]+3, d[2], 0, t)
				}},
			}
		},
	})

	register(&Prop{
		ID:   "R01",
		Rule: "reactive negotiation of every number of representations, every list format and constructor, under every request (also malformed ones); an independent reader checks the list",
		Spaces: func(tier string) []*Space {
			formats := []string{"", "application/json", "application/xml", "application/yaml", "text/yaml", "text/html"}
			reqs := []http.Header{{}}
			for _, k := range []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding", "Negotiate", "Accept-Features", "Range"} {
				for _, v := range []string{"", "*", "nonsense;;", "image/png;q=0", "*/*;q=0", "gzip;q=9", "identity;q=0", "1.0", "\x00", "de;q=0.5, *;q=0"} {
					reqs = append(reqs, http.Header{k: {v}}, http.Header{k: {v, v}, "Accept": {"application/xml"}})
				}
			}
			top := 16
			if thorough(tier) {
				top = 120
			}
			run := func(n negotiator.Negotiator, ct string, reps []*Rep, hh http.Header, creation bool, method string, t *T) string {
				t.Describe(func() any { return []any{method, describe(hh, reps)} })
				req := request(hh, nil)
				req.Method = method
				rec, err := negotiate(n, req, creation, asReps(reps)...)
				t.Exec(1)
				t.Step("reactive", uint64(len(reps)), hashStr(ct))
				if err != nil {
					return fmt.Sprintf("unexpected error %q", err)
				}
				if m := protocol(rec, err); m != "" {
					return m
				}
				if len(reps) == 0 {
					t.Outcome("204")
					if rec.status() != http.StatusNoContent || len(rec.body) > 0 {
						return fmt.Sprintf("status %d without representations", rec.status())
					}
					return ""
				}
				t.Outcome("300 " + ct)
				if rec.status() != http.StatusMultipleChoices {
					return fmt.Sprintf("status %d", rec.status())
				}
				for k, w := range map[string]string{"Content-Type": ct, "Content-Encoding": "identity", "Content-Language": "en-US", "Content-Charset": "ascii"} {
					if rec.get(k) != w {
						return fmt.Sprintf("%s %q, the list has %q", k, rec.get(k), w)
					}
				}
				if m := consistent(rec); m != "" {
					return m
				}
				return checkList(ct, rec.body, reps)
			}
			inst := func(f int) (negotiator.Negotiator, string) {
				if f == 0 {
					return reactive.Default, "application/json"
				}
				return reactive.New(reactive.Representation(newList(formats[f], nil))), formats[f]
			}
			return []*Space{
				{Name: "requests", Dims: []int{len(formats), len(reqs), 4, 2, len(methods)}, Run: func(d []int, t *T) string {
					n, ct := inst(d[0])
					return run(n, ct, resource(d[2]), reqs[d[1]], d[3] == 1, methods[d[4]], t)
				}},
				{Name: "kinds of representations", Dims: []int{len(formats), archetypes + 1, archetypes + 1, archetypes + 1, archetypes + 1}, Run: func(d []int, t *T) string {
					reps, ok := archetypesOf(d[1:])
					if !ok {
						return t.Skip()
					}
					n, ct := inst(d[0])
					return run(n, ct, reps, reqs[0], false, "GET", t)
				}},
				{Name: "number of representations", Dims: []int{len(formats), top, 2}, Run: func(d []int, t *T) string {
					n, ct := inst(d[0])
					return run(n, ct, resource(d[1]), reqs[0], d[2] == 1, "HEAD", t)
				}},
				{Name: "metadata", Dims: []int{len(formats), len(contentTypes), len(languages), len(charsets), len(codings), 3}, Run: func(d []int, t *T) string {
					if !thorough(tier) && d[4] > 5 {
						return t.Skip()
					}
					n, ct := inst(d[0])
					r := plain(0)
					setAttr(r, fAccept, d[1])
					setAttr(r, fLang, d[2])
					setAttr(r, fCharset, d[3])
					setAttr(r, fEnc, d[4])
					reps := []*Rep{plain(1), r, plain(2)}
					reps[0], reps[d[5]] = reps[d[5]], reps[0]
					return run(n, ct, reps, reqs[0], false, "GET", t)
				}},
			}
		},
	})
}

var transparentDefault = transparent.Default

package main

import (
	"fmt"
	"math"
	"net/http"
	"net/url"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// tokens of header values and metadata: the meaningful pieces of the grammars
// and bytes that do not belong there.
var headerTokens = []string{",", ";", "=", "*", "/", "q", "0", ".", "a", " ", "-", "\"", "\x80", "\\", "1"}

// pieces are longer tokens, for deeper sequences of meaningful text.
var headerPieces = map[string][]string{
	"Accept":          {"text/html", "*/*", "*", "/", ";", ",", "q=", "0.5", "NaN", "level=1", "=", "\"", " "},
	"Accept-Language": {"en", "en-US", "*", "-", ";", ",", "q=", "0.5", "NaN", "x-", "=", "\"", " ", "i-klingon"},
	"Accept-Charset":  {"utf-8", "*", ";", ",", "q=", "0.5", "9", "Inf", "=", "\"", " ", "_"},
	"Accept-Encoding": {"gzip", "*", "identity", ";", ",", "q=", "0.5", "9", "=", "\"", " ", "x-gzip"},
	"Accept-Features": {"tag", "!", "=", "{", "}", "*", ",", ";", "72", "\"", " ", "\\", "[", "-"},
	"Negotiate":       {"trans", "*", "1.0", "guess-small", ",", " ", "\"", "NaN", "0x1p-2", "vlist", ";"},
}
var headerNames = []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding", "Accept-Features", "Negotiate"}

func word(tokens []string, d []int) (string, bool) {
	s, ended := "", false
	for _, x := range d {
		if x == 0 {
			ended = true
			continue
		}
		if ended {
			return "", false
		}
		s += tokens[x-1]
	}
	return s, true
}

// total runs every negotiator, and checks that each one ends with an error and
// nothing sent, or exactly one response.
func total(ns []negotiator.Negotiator, h http.Header, u *url.URL, reps []representation.Representation, t *T) string {
	for i, n := range ns {
		rec, err := negotiate(n, request(h, u), false, reps...)
		t.Exec(1)
		if m := protocol(rec, err); m != "" {
			return m
		}
		if err == nil {
			if m := consistent(rec); m != "" {
				return m
			}
			switch rec.status() {
			case 200, 204, 300, 406:
			default:
				return fmt.Sprintf("status %d", rec.status())
			}
		}
		t.Outcome(fmt.Sprintf("negotiator %d: %d err=%v", i, rec.status(), err != nil))
		t.Step("end", uint64(i), uint64(rec.status()), hashStr(fmt.Sprint(err)))
	}
	return ""
}

func init() {
	register(&Prop{
		ID:   "P09",
		Rule: "every string of tokens up to the depth as the value of every header, and as every metadata field of the representations, and every combination of extreme values; the negotiation has to end, without panic, with either an error and nothing sent or exactly one consistent response",
		Spaces: func(tier string) []*Space {
			pro := proactive.New()
			lax := proactive.New(proactive.DisableStrictMode(), proactive.DisableNotAcceptableRepresentation())
			tr := transparent.New()
			first := transparent.New(transparent.RVSA(pickIndex(0)))
			all := []negotiator.Negotiator{pro, lax, tr, reactive.New()}
			rep := func(id int) *Rep {
				r := plain(id)
				r.CT, r.CL, r.CC, r.CE, r.CF = "text/html;level=1", "en-US", "utf-8", []string{"gzip"}, []string{"tag", "tag=72;+1-0.5", "[tag=[0-9] !a]"}
				return r
			}
			headerSpace := func(name, key string, tokens []string, depth int) *Space {
				dims := make([]int, depth)
				for i := range dims {
					dims[i] = len(tokens) + 1
				}
				ns := []negotiator.Negotiator{lax, tr}
				if key == "Accept-Features" || key == "Negotiate" {
					ns = []negotiator.Negotiator{tr}
				}
				if key == "Accept-Encoding" {
					ns = []negotiator.Negotiator{lax}
				}
				return &Space{Name: fmt.Sprintf("%s %s up to %d", key, name, depth), Dims: dims, Run: func(d []int, t *T) string {
					s, ok := word(tokens, d)
					if !ok {
						return t.Skip()
					}
					h := http.Header{"Negotiate": {"*"}}
					h[key] = []string{s}
					t.Describe(func() any { return h })
					r2 := plain(2)
					r2.CT = "text/plain"
					return total(ns, h, nil, []representation.Representation{rep(1), r2}, t)
				}}
			}
			n1, n2 := 5, 5
			if thorough(tier) {
				n1, n2 = 6, 6
			}
			var out []*Space
			metaTokens := []string{";", "/", "=", "text", "html", "level", "1", "*", " ", "\"", "\x80", ",", "-", "[", "]", "!", "+", "."}
			attrs := []string{"type", "language", "charset", "coding", "feature", "html level"}
			md := make([]int, 0)
			md = append(md, len(attrs))
			depth := 3
			if thorough(tier) {
				depth = 4
			}
			for i := 0; i < depth; i++ {
				md = append(md, len(metaTokens)+1)
			}
			out = append(out, &Space{Name: fmt.Sprintf("metadata up to %d tokens", depth), Dims: md, Run: func(d []int, t *T) string {
				s, ok := word(metaTokens, d[1:])
				if !ok {
					return t.Skip()
				}
				r := rep(1)
				switch d[0] {
				case 0:
					r.CT = s
				case 1:
					r.CL = s
				case 2:
					r.CC = s
				case 3:
					r.CE = []string{s, "gzip"}
				case 4:
					r.CF = []string{"tag", s}
				case 5:
					r.CT = "text/html;level=" + s
				}
				h := http.Header{"Accept": {"text/html, */*;q=0.1"}, "Accept-Language": {"en, *;q=0.5"}, "Accept-Charset": {"utf-8, *;q=0.5"}, "Accept-Encoding": {"gzip, *;q=0.2"},
					"Accept-Features": {"tag, tag=72, !a"}, "Negotiate": {"*"}}
				t.Describe(func() any { return describe(h, []*Rep{r}) })
				return total([]negotiator.Negotiator{pro, lax, tr, first}, h, nil, []representation.Representation{r, rep(2)}, t)
			}})
			sqs := []float32{1, 0, -1, 2, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, math.SmallestNonzeroFloat32, 0.0005, 0.9995}
			urls := []url.URL{reqURL, {}, {Path: "/"}, {Host: "["}, {Opaque: "x"}, {Path: "%"}, {RawPath: "%2", Path: "a"}, {Scheme: "HTTPS", Host: "H:", Path: "a/b"}, {Host: "::1", Path: "/a/"}, {Path: "/a/v", RawQuery: "a/b", Fragment: "/"},
				{Path: "v"}, {Scheme: "http", Host: "h.example"}, {Scheme: "http", Host: "h.example:", Path: "//"}, {Path: "a%2Fb", RawPath: "a%252Fb"}, {RawQuery: "x=/"}, {Scheme: "mailto", Opaque: "a@b"}, {Path: "..", Host: "h.example"}, {Scheme: "http", User: url.UserPassword("u", "p"), Host: "h.example", Path: "/a/%zz"}}
			accepts := []http.Header{{}, {"Accept": {"text/html"}}, {"Accept": nil}, {"Accept": {"", ""}}, {"Accept-Language": {""}}, {"Accept-Charset": {","}}, {"Accept-Encoding": {",,"}}, {"Accept-Language": {"*;q=0"}}}
			out = append(out, &Space{Name: "extreme numbers and URLs", Dims: []int{len(sqs), len(sqs), len(urls), len(urls), len(accepts), 4}, Run: func(d []int, t *T) string {
				r1, r2 := rep(1), rep(2)
				r1.SQ, r2.SQ = sqs[d[0]], sqs[d[1]]
				r1.Loc = urls[d[2]]
				h := accepts[d[4]].Clone()
				h["Negotiate"] = []string{[]string{"*", "1.0", "guess-small", "trans"}[d[5]]}
				u := urls[d[3]]
				t.Describe(func() any { return map[string]any{"request url": u, "input": describe(h, []*Rep{r1, r2})} })
				ns := append([]negotiator.Negotiator{first}, all...)
				if d[2]+d[3] > 0 {
					ns = []negotiator.Negotiator{tr, first}
				}
				return total(ns, h, &u, []representation.Representation{r1, r2}, t)
			}})
			// weights that are not a number from 0 to 1 are errors, wherever they are.
			bad := []string{"NaN", "nan", "-1", "-0.001", "1.001", "1.1", "2", "10", "1e9", "Inf", "+Inf", "-Inf", "Infinity", "abc", "0,5x", "1..0", "0.5.0", "--0", "0.5;q=NaN"}
			rangesFor := map[string][]string{"Accept": {"text/html", "*/*", "text/*", "image/png"}, "Accept-Language": {"en", "*", "de", "en-US"}, "Accept-Charset": {"utf-8", "*", "utf-16"}, "Accept-Encoding": {"gzip", "*", "identity", "br"}}
			out = append(out, &Space{Name: "malformed weights", Dims: []int{4, 4, len(bad) - 5, 4, 3, 2}, Run: func(d []int, t *T) string {
				k := headerNames[d[0]]
				rs := rangesFor[k]
				if d[1] >= len(rs) {
					return t.Skip()
				}
				e := rs[d[1]] + ";" + []string{"q", "Q"}[d[4]%2] + "=" + bad[d[2]]
				good := rs[0] + ";q=0.5"
				h := http.Header{"Negotiate": {"*"}}
				switch d[3] {
				case 0:
					h[k] = []string{e}
				case 1:
					h[k] = []string{good + ", " + e}
				case 2:
					h[k] = []string{e, good}
				case 3:
					h[k] = []string{good, e}
				}
				ns := []negotiator.Negotiator{pro, lax, tr}
				if k == "Accept-Encoding" {
					ns = ns[:2]
				}
				reps := []representation.Representation{rep(1), rep(2)}
				if d[5] == 1 {
					reps = reps[:1]
				}
				t.Describe(func() any { return h })
				for i, n := range ns {
					rec, err := negotiate(n, request(h, nil), false, reps...)
					t.Exec(1)
					t.Step("malformed weight", uint64(i), hashStr(e))
					if err == nil {
						return fmt.Sprintf("negotiator %d: %q is answered with %d", i, h[k], rec.status())
					}
					if m := protocol(rec, err); m != "" {
						return m
					}
				}
				t.Outcome("malformed weight")
				return ""
			}})
			out = append(out, &Space{Name: "several lines", Dims: []int{len(headerNames), 9, 9, 9}, Run: func(d []int, t *T) string {
				lines := []string{"", ",", "*", "*/*", "a;q=0", ";q=1", " ", "\"", "a, b"}
				h := http.Header{"Negotiate": {"*"}}
				h[headerNames[d[0]]] = []string{lines[d[1]], lines[d[2]], lines[d[3]]}
				t.Describe(func() any { return h })
				return total(all, h, nil, []representation.Representation{rep(1), rep(2)}, t)
			}})
			out = append(out, &Space{Name: "number of representations", Dims: []int{70, 3}, Run: func(d []int, t *T) string {
				var reps []representation.Representation
				for i := 0; i < d[0]; i++ {
					reps = append(reps, rep(i))
				}
				h := []http.Header{nil, {"Accept": {"image/png"}}, {"Negotiate": {"1.0"}, "Accept": {"text/html"}}}[d[1]]
				t.Describe(func() any { return map[string]any{"n": d[0], "header": h} })
				return total(append(all, transparent.New(transparent.MaximumVariantListSize(100))), h, nil, reps, t)
			}})
			out = append(out, &Space{Name: "representations without anything", Dims: []int{4, 4, len(accepts)}, Run: func(d []int, t *T) string {
				reps := []representation.Representation{}
				for i := 0; i < d[0]; i++ {
					reps = append(reps, &Rep{})
				}
				for i := 0; i < d[1]; i++ {
					reps = append(reps, &Rep{CE: []string{""}, CF: []string{""}, CT: ";", Body: []byte("x")})
				}
				t.Describe(func() any { return describe(accepts[d[2]], nil) })
				return total(all, accepts[d[2]], nil, reps, t)
			}})
			for _, k := range headerNames {
				out = append(out, headerSpace("tokens", k, headerTokens, n1))
			}
			for _, k := range headerNames {
				out = append(out, headerSpace("pieces", k, headerPieces[k], n2))
			}
			return out
		},
	})
}

package main

import (
	"bytes"
	"fmt"
	"mime"
	"net/http"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

func splitTrim(s string) (out []string) {
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return
}

// describes tells whether the response describes the representation.
func describes(rec *Recorder, r *Rep, location bool) string {
	one := func(k, want string) string {
		vs := rec.snapshot.Values(k)
		if want == "" {
			for _, v := range vs {
				if v != "" {
					return fmt.Sprintf("%s is %q for a representation without it", k, vs)
				}
			}
			return ""
		}
		if len(vs) != 1 || vs[0] != want {
			return fmt.Sprintf("%s is %q, the representation has %q", k, vs, want)
		}
		return ""
	}
	if !bytes.Equal(rec.body, r.Body) {
		return fmt.Sprintf("body is %q, the representation is %q", rec.body, r.Body)
	}
	for _, kv := range [][2]string{{"Content-Type", r.CT}, {"Content-Language", r.CL}, {"Content-Charset", r.CC}, {"Content-Length", fmt.Sprint(len(r.Body))}} {
		if m := one(kv[0], kv[1]); m != "" {
			return m
		}
	}
	if location {
		if m := one("Content-Location", r.Loc.String()); m != "" {
			return m
		}
	}
	var got []string
	for _, v := range rec.snapshot.Values("Content-Encoding") {
		got = append(got, splitTrim(v)...)
	}
	if strings.Join(got, ",") != strings.Join(r.CE, ",") {
		return fmt.Sprintf("Content-Encoding is %q, the representation has %q", got, r.CE)
	}
	return ""
}

func init() {
	cts := []string{"text/html", "", "application/json; charset=utf-8", "text/html;level=2", "application/vnd.x+xml", `text/plain; a="b,c"`}
	cls := []string{"en-US", "", "de", "zh-Hant-TW"}
	ccs := []string{"utf-8", "", "Shift_JIS"}
	ces := [][]string{nil, {"gzip"}, {"deflate", "gzip"}, {"identity"}, {"compress", "identity", "br"}}
	locs := []string{"http://h.example/a/v", "", "/a/w?x=1&y=2#f", "http://h.example/a/%7Eb%20c", "http://h.example:8080/a/x", "http://h.example/a/r", "http://h.example/a/r?v=1", "#f"}
	bodies := [][]byte{[]byte("x"), nil, bytes.Repeat([]byte("0123456789"), 1000), []byte("\x00\xff"), bodyFor(1, 9), bodyFor(2, 10), bodyFor(3, 99), bodyFor(4, 100)}
	presets := []http.Header{
		nil,
		{"Content-Type": {"stale/type"}, "Content-Length": {"7"}, "Content-Language": {"xx"}, "X-Other": {"a", "b"}},
		{"Content-Encoding": {"stale", "br"}, "Content-Charset": {"stale"}, "Content-Location": {"http://stale/"}, "Vary": {"Accept"}},
	}
	unrelated := func(rec *Recorder, p http.Header) string {
		for _, k := range []string{"X-Other", "Vary"} {
			if fmt.Sprint(rec.snapshot[k]) != fmt.Sprint(p[k]) {
				return fmt.Sprintf("header %s changed from %q to %q", k, p[k], rec.snapshot[k])
			}
		}
		return ""
	}
	run := func(n negotiator.Negotiator, h http.Header, preset http.Header, creation bool, reps []representation.Representation, u string) (*Recorder, error) {
		rec := newRecorder()
		for k, v := range preset {
			rec.header[k] = append([]string{}, v...)
		}
		req := request(h, nil)
		if u != "" {
			x := mustURL(u)
			req.URL = &x
		}
		err := n.Negotiate(negotiator.NegotiationContext{ResponseWriter: rec, Request: req, IsCreation: creation}, reps...)
		return rec, err
	}
	// the responses that carry a representation, or a list.
	kinds := []struct {
		name     string
		status   [2]int
		location bool
	}{
		{"proactive", [2]int{200, 201}, true}, {"proactive, one of three", [2]int{200, 201}, true},
		{"transparent choice", [2]int{200, 200}, true},
		{"proactive list", [2]int{406, 406}, false}, {"proactive default list", [2]int{406, 406}, false},
		{"transparent list", [2]int{300, 300}, false}, {"reactive", [2]int{300, 300}, false},
	}
	exec := func(k int, r *Rep, preset http.Header, creation bool, t *T) string {
		t.Describe(func() any {
			return map[string]any{"response": kinds[k].name, "representation": r.String(), "preset": preset, "creation": creation}
		})
		other := plain(90)
		reps := []representation.Representation{other, r, plain(91)}
		cons := func(...representation.Representation) representation.Representation { return r }
		dummy := func(...representation.Representation) representation.Representation { return plain(92) }
		pick := func(x representation.Representation) representation.Chooser {
			return chooserFunc(func(_ *http.Request, rs ...representation.Representation) (representation.Representation, error) {
				for _, y := range rs {
					if y == x {
						return x, nil
					}
				}
				return nil, nil
			})
		}
		var n negotiator.Negotiator
		h := http.Header{}
		u := ""
		switch k {
		case 0:
			n, reps = proactive.New(), []representation.Representation{r}
		case 1:
			n = proactive.New(proactive.Algorithm(pick(r)))
		case 2:
			n = transparent.New(transparent.RVSA(pick(r)))
			h.Set("Negotiate", "*")
			u = r.Loc.String()
			if r.Loc.Path == "" {
				return t.Skip()
			}
		case 3:
			n, reps = proactive.New(proactive.Algorithm(pick(r)), proactive.Representations(dummy, cons)), []representation.Representation{other}
		case 4:
			n, reps = proactive.New(proactive.Algorithm(pick(nil)), proactive.Representations(dummy), proactive.DefaultRepresentation(cons)), []representation.Representation{other}
		case 5:
			n, reps = transparent.New(transparent.ListRepresentation(cons)), []representation.Representation{other}
			h.Set("Negotiate", "trans")
		case 6:
			n, reps = reactive.New(reactive.Representation(cons)), []representation.Representation{other}
		}
		rec, err := run(n, h, preset, creation, reps, u)
		t.Exec(1)
		t.Step("described", hashStr(r.String()), uint64(k))
		if err != nil {
			if _, _, malformed := mime.ParseMediaType(r.CT); r.CT != "" && malformed != nil {
				t.Outcome(kinds[k].name + " malformed type")
				return protocol(rec, err)
			}
			return fmt.Sprintf("unexpected error %q", err)
		}
		if m := protocol(rec, err); m != "" {
			return m
		}
		want := kinds[k].status[boolBit(creation)]
		t.Outcome(fmt.Sprint(kinds[k].name, " ", want))
		if rec.status() != want {
			return fmt.Sprintf("status %d, expected %d", rec.status(), want)
		}
		if m := describes(rec, r, kinds[k].location); m != "" {
			return m
		}
		return unrelated(rec, preset)
	}
	register(&Prop{
		ID:   "P06",
		Rule: "every combination of representation metadata, size, pre-set headers, creation and kind of response; the response has to describe exactly the body that is sent; representations whose serialization varies between calls are included",
		Spaces: func(tier string) []*Space {
			mk := func(ct, cl, cc, ce, loc, body int) *Rep {
				return &Rep{ID: 1, CT: cts[ct], CL: cls[cl], CC: ccs[cc], CE: ces[ce], Loc: mustURL(locs[loc]), Body: bodies[body], SQ: 1}
			}
			sizes := 300
			if thorough(tier) {
				sizes = 70000
			}
			return []*Space{
				{Name: "metadata", Dims: []int{len(kinds), len(cts), len(cls), len(ccs), len(ces), len(locs), 2, len(presets)}, Run: func(d []int, t *T) string {
					return exec(d[0], mk(d[1], d[2], d[3], d[4], d[5], (d[1]+d[2])%len(bodies)), presets[d[7]], d[6] == 1, t)
				}},
				{Name: "spellings", Dims: []int{len(kinds), len(spelledMetadata), 2, 2}, Run: func(d []int, t *T) string {
					r := mk(0, 0, 0, 0, 0, 0)
					if d[3] == 1 {
						r.CT, r.CL, r.CC = "", "", ""
					}
					spelledMetadata[d[1]](r)
					return exec(d[0], r, nil, d[2] == 1, t)
				}},
				{Name: "spellings, two attributes", Dims: []int{len(kinds), len(spelledMetadata), len(spelledMetadata)}, Run: func(d []int, t *T) string {
					if d[1] == d[2] {
						return t.Skip()
					}
					r := mk(0, 0, 0, 0, 0, 0)
					spelledMetadata[d[1]](r)
					spelledMetadata[d[2]](r)
					return exec(d[0], r, nil, false, t)
				}},
				{Name: "bodies", Dims: []int{len(kinds), len(bodies), len(cts), 2, len(presets)}, Run: func(d []int, t *T) string {
					return exec(d[0], mk(d[2], 0, 0, d[1]%len(ces), 0, d[1]), presets[d[4]], d[3] == 1, t)
				}},
				{Name: "body sizes", Dims: []int{len(kinds), sizes}, Run: func(d []int, t *T) string {
					r := mk(0, 0, 0, 0, 0, 0)
					r.Body = bytes.Repeat([]byte{'z'}, d[1])
					return exec(d[0], r, nil, false, t)
				}},
				{Name: "scale: body sizes", Dims: []int{len(kinds), len(scale(1 << 20)), 2}, Run: func(d []int, t *T) string {
					r := mk(0, 0, 0, 0, 0, 0)
					r.Body = bytes.Repeat([]byte{'z'}, scale(1 << 20)[d[1]])
					return exec(d[0], r, nil, d[2] == 1, t)
				}},
				{Name: "scale: long metadata", Dims: []int{len(kinds), 6, len(scale(1 << 12)), 2}, Run: func(d []int, t *T) string {
					r := mk(0, 0, 0, 0, 0, 0)
					l := scale(1 << 12)[d[2]]
					x := longName(l, d[3]*2, 'b')
					switch d[1] {
					case 0:
						r.CT = "text/" + x
					case 1:
						r.CL = x
					case 2:
						r.CC = x
					case 3:
						r.CE = []string{x}
					case 4:
						r.CE = nil
						for i := 0; i < l; i++ {
							r.CE = append(r.CE, []string{"gzip", "deflate", "br"}[i%3])
						}
					case 5:
						r.Loc = mustURL("http://h.example/a/" + x)
					}
					return exec(d[0], r, nil, false, t)
				}},
				{Name: "default lists", Dims: []int{3, 12, len(presets), 2}, Run: func(d []int, t *T) string {
					reps := resource(d[1])
					h := http.Header{"Accept": {"audio/ogg"}}
					var n negotiator.Negotiator = proactive.New()
					want := 406
					switch d[0] {
					case 1:
						n, want = transparent.New(transparent.MaximumVariantListSize(20)), 300
					case 2:
						n, want = reactive.New(), 300
					}
					if len(reps) == 0 {
						want = 204
					}
					t.Describe(func() any { return describe(h, reps) })
					rec, err := run(n, h, presets[d[2]], d[3] == 1, asReps(reps), "")
					t.Exec(1)
					t.Step("list", uint64(d[0]), uint64(d[1]))
					t.Outcome(fmt.Sprint(d[0], want))
					if err != nil {
						return fmt.Sprintf("unexpected error %q", err)
					}
					if m := protocol(rec, err); m != "" {
						return m
					}
					if rec.status() != want {
						return fmt.Sprintf("status %d, expected %d", rec.status(), want)
					}
					if m := unrelated(rec, presets[d[2]]); m != "" {
						return m
					}
					if want == 204 {
						if len(rec.body) != 0 {
							return "204 with a body"
						}
						return ""
					}
					if m := checkList("application/json", rec.body, reps); m != "" {
						return m
					}
					l := &Rep{CT: "application/json", CL: "en-US", CC: "ascii", CE: []string{"identity"}, Body: rec.body}
					return describes(rec, l, false)
				}},
				{Name: "varying serialization", Dims: []int{8, 4, 4, 4, 4}, Run: func(d []int, t *T) string {
					// the k-th serialization has 5 + d[1+k%4] bytes.
					r := mk(0, 0, 0, 0, 0, 0)
					var seen [][]byte
					r.onBytes = func(*Rep) ([]byte, error) {
						k := len(seen) % 4
						b := bytes.Repeat([]byte{byte('a' + len(seen))}, 5+d[1+k])
						seen = append(seen, b)
						return b, nil
					}
					t.Describe(func() any { return map[string]any{"kind": d[0], "sizes": d[1:]} })
					return varying(d[0], r, &seen, t)
				}},
			}
		},
	})
}

// varying runs the proactive negotiator with equal representations and
// serializations that change, the response has to be consistent with itself.
func varying(k int, r *Rep, seen *[][]byte, t *T) string {
	*seen = nil
	same := func(id int) *Rep {
		x := *r
		x.ID = id
		return &x
	}
	reps := []*Rep{same(0), same(1), same(2)}
	var n negotiator.Negotiator
	h := http.Header{}
	switch k {
	case 0:
		n = proactive.New()
	case 1:
		n = proactive.New()
		reps = reps[:1]
	case 2:
		n = transparent.New(transparent.RVSA(chooserFunc(func(_ *http.Request, rs ...representation.Representation) (representation.Representation, error) {
			return rs[0], nil
		})))
		h.Set("Negotiate", "guess-small")
	case 3:
		n = transparent.New(transparent.ListRepresentation(func(rs ...representation.Representation) representation.Representation { return rs[0] }))
	case 4:
		n = transparent.New(transparent.RVSA(chooserFunc(func(_ *http.Request, rs ...representation.Representation) (representation.Representation, error) {
			return rs[1], nil
		})))
		h.Set("Negotiate", "*")
	case 5:
		n = reactive.New(reactive.Representation(func(rs ...representation.Representation) representation.Representation { return rs[0] }))
	case 6:
		first := true
		n = proactive.New(proactive.Algorithm(chooserFunc(func(_ *http.Request, rs ...representation.Representation) (representation.Representation, error) {
			if first {
				first = false
				return nil, nil
			}
			return rs[0], nil
		})), proactive.Representations(func(rs ...representation.Representation) representation.Representation { return rs[0] }))
	case 7:
		n = proactive.New(proactive.Representations(), proactive.DefaultRepresentation(func(rs ...representation.Representation) representation.Representation { return rs[2] }))
		for _, r := range reps {
			r.CT = "video/mp4"
		}
		h.Set("Accept", "image/png")
	}
	rec, err := negotiate(n, request(h, nil), false, asReps(reps)...)
	t.Exec(1)
	t.Step("varying", uint64(k), uint64(len(rec.body)), uint64(len(*seen)))
	if err != nil {
		return fmt.Sprintf("unexpected error %q", err)
	}
	if m := protocol(rec, err); m != "" {
		return m
	}
	if m := consistent(rec); m != "" {
		return m
	}
	for _, b := range *seen {
		if bytes.Equal(b, rec.body) {
			return ""
		}
	}
	return fmt.Sprintf("body %q is none of the serializations", rec.body)
}

// spelledMetadata set an attribute, or the content, to a value that somebody
// might take for another spelling of something else.
var spelledMetadata = func() (out []func(r *Rep)) {
	for _, v := range []string{"en-gb", "EN-US", "EN", "iw", "he", "zh-tw", "zh-cmn", "sgn-BE-FR", "i-klingon", "x-private", "en_US", "*", "mul", "und", "en, fr", "en-US-x-y", "art-lojban", "de-1996", "es-419", "sr-Latn-RS", "no", "nb-no", "unknown!", "en ", " en", "eng", "en-u-co-phonebk"} {
		v := v
		out = append(out, func(r *Rep) { r.CL = v })
	}
	for _, v := range []string{"UTF8", "utf8", "UTF-8", "ISO-8859-1", "latin1", "l1", "us-ascii", "ASCII", "ANSI_X3.4-1968", "windows-1252", "csUTF8", "*", "utf-8, ascii", "\"utf-8\"", " utf-8 ", "x-user-defined", "ISO_8859-1:1987"} {
		v := v
		out = append(out, func(r *Rep) { r.CC = v })
	}
	for _, v := range []string{"TEXT/HTML", "Text/Html;Level=1", "text/html; q=0.5", "text/html;q=x", "text/html ; charset=utf-8", "text/html;charset=\"utf-8\"", "text/html;charset=iso-8859-1", "text/html;", "text/html; ", " text/html ", "text/html;a=1;b=2", "text/html;b=2;a=1", "text/html;a=1;a=1",
		"application/vnd.api+json;ext=\"https://x.example/;q=1\"", "text", "*/*", "text/*", "text/html,text/plain", "text/html; title*=UTF-8''%e2%82%ac", "multipart/form-data; boundary=x", "application/x-gzip", "image/svg+xml", "text/xml", "application/octet-stream"} {
		v := v
		out = append(out, func(r *Rep) { r.CT = v })
	}
	for _, v := range [][]string{{"GZIP"}, {"x-gzip"}, {"X-Gzip", "Deflate"}, {"identity", "identity"}, {"identity", "gzip", "identity"}, {"gzip", "gzip"}, {"aes128gcm"}, {"exi", "br"}, {"*"}} {
		v := v
		out = append(out, func(r *Rep) { r.CE = v })
	}
	for _, v := range []string{"http://h.example/a/V", "http://h.example/a/./v", "http://h.example/a//v", "http://h.example/a/v/", "http://h.example/a/v%2Fw", "http://h.example/a/v%7e", "http://h.example/a/v?", "http://h.example/a/v#", "http://h.example/a/v?b=2&a=1", "http://h.example/a/v?a=%20+", "HTTP://h.example/a/v", "http://H.example/a/v", "http://h.example:80/a/v", "/a/v;x=1", "/a/\u00e9"} {
		v := v
		out = append(out, func(r *Rep) { r.Loc = mustURL(v) })
	}
	for _, v := range []string{"\n", " ", "\r\n", " leading", "trailing \n\n", "\ufeffbom", "\u00e9\u00e9\u00e9", "\u20ac", "\U0001f600", "a\r\nb", "a\nb", "\x00", "\x00\x00\x00", "\x1f\x8b\x08", "<html></html>", "{}", "null", "[]", "%00", "%s %d %!", "\xff\xfe", "\x80", "0", "a\x00b"} {
		v := v
		out = append(out, func(r *Rep) { r.Body = []byte(v) })
	}
	for _, v := range []float32{0, -1, 1.5, 0.0001, 0.999} {
		v := v
		out = append(out, func(r *Rep) { r.SQ = v })
	}
	for _, v := range [][]string{{"tables"}, {"a", "a"}, {"[x y]"}, {"a=[1-2];+1.5-0.5"}} {
		v := v
		out = append(out, func(r *Rep) { r.CF = v })
	}
	return
}()

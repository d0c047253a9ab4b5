package main

import (
	"errors"
	"fmt"
	"mime"
	"net/http"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// nearHTML are the spaces of P02 about values that resemble those that the
// algorithm treats specially.
func nearHTML(string) []*Space {
	n := proactive.New(proactive.DisableNotAcceptableRepresentation())
	charsets := nearMisses("iso-8859-1", tokenChars)
	for _, s := range []string{"iso-8859-2", "iso-8859-15", "iso-8859-10", "iso8859-1", "iso_8859-1", "latin1", "x-iso-8859-1", "iso-8859-1-x", "windows-1252", "iso-8859", " iso-8859-1", "iso-8859-1 "} {
		charsets = append(charsets, s)
	}
	var types []string
	for _, s := range append(nearMisses("text/html", tokenChars), "text/css", "text/plain", "application/html", "application/xhtml+xml", "text/html+x", "text/x-html", "x-text/html", "text/xml", "html/text", "image/html") {
		if strings.Count(s, "/") == 1 && !strings.HasPrefix(s, "/") && !strings.HasSuffix(s, "/") {
			types = append(types, s)
		}
	}
	names := append(nearMisses("level", tokenChars), "q", "version", "charset", "levels", "sublevel", "x-level", "level-x")
	ask := func(h http.Header, reps []*Rep, want int, t *T) string {
		t.Describe(func() any { return describe(h, reps) })
		rec, err := negotiateAny(n, h, reps)
		t.Exec(1)
		return expectChoice(rec, err, reps, want, t)
	}
	headers := []http.Header{{}, {"Accept": {"*/*"}, "Accept-Charset": {"*"}}}
	return []*Space{
		{Name: "charsets that resemble ISO-8859-1", Dims: []int{len(charsets), 5, len(headers)}, Run: func(d []int, t *T) string {
			cc := charsets[d[0]]
			if cc == "" {
				return t.Skip()
			}
			same := strings.EqualFold(cc, "iso-8859-1")
			pairs := [][2]string{{"iso-8859-1", cc}, {cc, "ISO-8859-1"}, {cc, "utf-8"}, {"utf-8", cc}, {"Iso-8859-1", cc}}[d[1]]
			var reps []*Rep
			for i, c := range pairs {
				r := plain(i)
				r.CC = c
				reps = append(reps, r)
			}
			want := 0
			if strings.EqualFold(pairs[0], "iso-8859-1") && !strings.EqualFold(pairs[1], "iso-8859-1") {
				want = 1
			}
			t.Step("charset", hashStr(cc), uint64(d[1]), boolBit64(same))
			return ask(headers[d[2]].Clone(), reps, want, t)
		}},
		{Name: "types that resemble html", Dims: []int{len(types), 4, len(headers)}, Run: func(d []int, t *T) string {
			html := strings.EqualFold(types[d[0]], "text/html")
			ct := types[d[0]] + ";level=3"
			pair, want := [][2]string{{"text/plain", ct}, {"text/html;level=2", ct}, {ct, "text/html;level=9"}, {"text/html", ct}}[d[1]], []int{0, 0, 1, 0}[d[1]]
			if html {
				want = 1
			}
			var reps []*Rep
			for i, c := range pair {
				r := plain(i)
				r.CT = c
				reps = append(reps, r)
			}
			t.Step("type", hashStr(ct), uint64(d[1]))
			return ask(headers[d[2]].Clone(), reps, want, t)
		}},
		{Name: "parameters that resemble level", Dims: []int{len(names), 3, len(headers)}, Run: func(d []int, t *T) string {
			level := strings.EqualFold(names[d[0]], "level")
			ct := "text/html;" + names[d[0]] + "=3"
			if _, _, err := mime.ParseMediaType(ct); err != nil || strings.Contains(names[d[0]], "*") {
				return t.Skip()
			}
			pair, want := [][2]string{{"text/html", ct}, {"text/html;level=2", ct}, {ct, "text/html;level=9"}}[d[1]], []int{0, 0, 1}[d[1]]
			if level {
				want = 1
			}
			var reps []*Rep
			for i, c := range pair {
				r := plain(i)
				r.CT = c
				reps = append(reps, r)
			}
			t.Step("parameter", hashStr(ct), uint64(d[1]))
			return ask(headers[d[2]].Clone(), reps, want, t)
		}},
	}
}

func boolBit64(b bool) uint64 { return uint64(boolBit(b)) }

// asteriskSpaces: an asterisk within a name is a character like others.
func asteriskSpaces(kind byte) func(tier string) []*Space {
	return func(tier string) []*Space {
		subs := []string{"html", "*html", "html*", "h*l", "**", "*+json", "x+json", "vnd.x+json", "+json", "json", "*.*", "x*", "*x", "vnd.*", "x.*"}
		tops := []string{"text", "*text", "text*", "t*t", "application", "*a", "a*"}
		n := negotiator.Negotiator(proactive.New(proactive.DisableNotAcceptableRepresentation()))
		if kind == 't' {
			n = transparent.New()
		}
		run := func(rangeText, value string, match bool, mode int, t *T) string {
			hh := http.Header{"Accept": {rangeText}}
			r := plain(0)
			r.CT, r.Loc = value, mustURL("http://h.example/a/v")
			reps := []*Rep{r}
			want := none
			if match {
				want = 0
			}
			switch mode {
			case 1:
				hh["Accept"] = []string{rangeText + ";q=0, image/png;q=0.1"}
				o := plain(1)
				o.CT, o.Loc = "image/png", mustURL("http://h.example/a/w")
				reps, want = append(reps, o), 1
			case 2:
				hh["Accept"] = []string{"image/png;q=0.1, " + rangeText}
				o := plain(1)
				o.CT, o.Loc = "image/png", mustURL("http://h.example/a/w")
				reps = append(reps, o)
				if !match {
					want = 1
				}
			}
			t.Describe(func() any { return describe(hh, reps) })
			t.Step("asterisk", hashStr(rangeText), hashStr(value), uint64(mode))
			t.Exec(1)
			if kind == 't' {
				hh["Negotiate"] = []string{"1.0"}
				rec, err := negotiateAny(n, hh, reps)
				t.Outcome(fmt.Sprint("chose ", want))
				return tcnResponse(rec, err, reps, want, nil)
			}
			rec, err := negotiateAny(n, hh, reps)
			return expectChoice(rec, err, reps, want, t)
		}
		out := []*Space{
			{Name: "asterisks within subtypes", Dims: []int{len(subs), len(subs), 3}, Run: func(d []int, t *T) string {
				return run("application/"+subs[d[0]], "application/"+subs[d[1]], d[0] == d[1], d[2], t)
			}},
			{Name: "asterisks within types", Dims: []int{len(tops), len(tops), 3}, Run: func(d []int, t *T) string {
				return run(tops[d[0]]+"/html", tops[d[1]]+"/html", d[0] == d[1], d[2], t)
			}},
		}
		if kind == 't' {
			return out
		}
		codings := append(nearMisses("identity", tokenChars), "none", "plain", "binary", "8bit", "raw", "")
		return append(out, &Space{Name: "codings that resemble identity", Dims: []int{len(codings), 6}, Run: func(d []int, t *T) string {
			c := codings[d[0]]
			identity := strings.EqualFold(c, "identity")
			r := plain(0)
			r.CE = [][]string{{c}, {c}, {c, "gzip"}, {"gzip", c}, {c}, {c, "identity"}}[d[1]]
			hh := http.Header{"Accept-Encoding": {[]string{"gzip", "identity;q=0, gzip", "gzip, br", "gzip", "identity", "br;q=0.5"}[d[1]]}}
			want := none
			if identity && d[1] != 1 {
				want = 0
			}
			reps := []*Rep{r}
			t.Describe(func() any { return describe(hh, reps) })
			t.Step("identity", hashStr(c), uint64(d[1]))
			t.Exec(1)
			rec, err := negotiateAny(n, hh, reps)
			return expectChoice(rec, err, reps, want, t)
		}})
	}
}

// nearCodecSpaces: names that resemble supported types and codings.
func nearCodecSpaces(string) []*Space {
	types := map[string]bool{"application/json": true, "application/xml": true, "application/yaml": true, "text/yaml": true, "text/html": true}
	codings := map[string]bool{"gzip": true, "x-gzip": true, "compress": true, "x-compress": true, "deflate": true, "identity": true}
	var ts, cs []string
	for _, s := range []string{"application/json", "application/xml", "application/yaml", "text/yaml", "text/html"} {
		ts = append(ts, nearMisses(s, tokenChars)...)
	}
	ts = append(ts, "application/vnd.x+json", "application/vnd.x+xml", "application/vnd.x+yaml", "application/problem+json", "text/json", "text/xml", "application/x-yaml", "text/x-yaml", "application/xhtml+xml", "application/html", "application/javascript", "application/ld+json", "text/javascript", "application/x-json", "json", "xml", "yaml", "html", "image/svg+xml", "application/octet-stream", "text/plain", "", "/", "*", "*/*")
	for _, s := range []string{"gzip", "x-gzip", "compress", "x-compress", "deflate", "identity"} {
		cs = append(cs, nearMisses(s, tokenChars)...)
	}
	cs = append(cs, "br", "zstd", "x-deflate", "zlib", "raw", "none", "", "*", "x-identity", "lzw", "bzip2", "x-bzip2", "lzma", "xz", "aes128gcm", "exi", "pack200-gzip", "dcb", "dcz", "gzip;q=1", "gzip, gzip", "gzip ")
	judge := func(err, kind error, supported bool, t *T) string {
		if supported {
			t.Outcome("supported")
			if err != nil {
				return fmt.Sprintf("unexpected error %q", err)
			}
			return ""
		}
		t.Outcome("unsupported")
		if !errors.Is(err, kind) {
			return fmt.Sprintf("error %v instead of %q", err, kind)
		}
		return ""
	}
	return []*Space{
		{Name: "types that resemble supported ones", Dims: []int{len(ts), 2, 3}, Run: func(d []int, t *T) string {
			base := strings.ToLower(ts[d[0]])
			ct := ts[d[0]] + []string{"", "; charset=utf-8", ";profile=\"application/json\""}[d[2]]
			doc := newDoc(&docs[1], ct, nil)
			t.Describe(func() any { return map[string]any{"type": ct, "reading": d[1] == 1} })
			t.Step("type", hashStr(ct), uint64(d[1]))
			t.Exec(1)
			var err error
			if d[1] == 0 {
				_, err = doc.Bytes()
			} else {
				like := "application/json"
				if types[base] {
					like = base
				}
				err = doc.FromBytes(plainBytes(like, newDoc(&docs[1], "", nil)))
			}
			return judge(err, representation.ErrUnsupportedContentType, types[base], t)
		}},
		{Name: "codings that resemble supported ones", Dims: []int{len(cs), 2, 3}, Run: func(d []int, t *T) string {
			c := strings.ToLower(cs[d[0]])
			ce := [][]string{{cs[d[0]]}, {"gzip", cs[d[0]]}, {cs[d[0]], "deflate"}}[d[2]]
			doc := newDoc(&docs[1], "application/json", ce)
			t.Describe(func() any { return map[string]any{"codings": ce, "reading": d[1] == 1} })
			t.Step("coding", hashStr(strings.Join(ce, "|")), uint64(d[1]))
			t.Exec(1)
			var err error
			if d[1] == 0 {
				_, err = doc.Bytes()
			} else {
				lower := make([]string, len(ce))
				for i := range ce {
					lower[i] = strings.ToLower(ce[i])
				}
				if codings[c] {
					err = doc.FromBytes(encodeRef(lower, plainBytes("application/json", newDoc(&docs[1], "", nil))))
				} else {
					// what a codec that took it for the supported one would read.
					err = doc.FromBytes(encodeRef([]string{lower[len(lower)-1]}, plainBytes("application/json", newDoc(&docs[1], "", nil))))
					if d[2] == 1 || d[2] == 0 {
						err2 := newDoc(nil, "application/json", ce).FromBytes(encodeRef([]string{"gzip", "gzip"}, plainBytes("application/json", newDoc(&docs[1], "", nil))))
						t.Exec(1)
						if m := judge(err2, representation.ErrUnsupportedContentEncoding, false, t); m != "" {
							return m
						}
					} else if err == nil {
						return "an unsupported coding is ignored"
					} else {
						return ""
					}
				}
			}
			return judge(err, representation.ErrUnsupportedContentEncoding, codings[c], t)
		}},
	}
}

func init() {
	extend("P02", nearHTML)
	extend("P01", asteriskSpaces('p'))
	extend("T02", asteriskSpaces('t'))
	extend("S03", nearCodecSpaces)
}

package main

import (
	"bytes"
	"fmt"
	"net/http"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// nearMisses are all strings within an edit of the word, itself included.
func nearMisses(word, alphabet string) (out []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	add(word)
	add(strings.ToUpper(word))
	for i := 0; i <= len(word); i++ {
		if i < len(word) {
			add(word[:i] + word[i+1:])
		}
		if i+1 < len(word) {
			add(word[:i] + word[i+1:i+2] + word[i:i+1] + word[i+2:])
		}
		for _, c := range alphabet {
			add(word[:i] + string(c) + word[i:])
			if i < len(word) {
				add(word[:i] + string(c) + word[i+1:])
			}
		}
	}
	add(word + word)
	return
}

// words are all strings over the alphabet up to the length.
func words(alphabet string, n int) (out []string) {
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range last {
			for _, c := range alphabet {
				next = append(next, w+string(c))
			}
		}
		out = append(out, next...)
		last = next
	}
	return
}

const tokenChars = "abcdefghijklmnopqrstuvwxyz0123456789-+._*!#$&^"

// directiveSpaces: words that are almost directives.
func directiveSpaces(tier string) []*Space {
	var ds []string
	for _, d := range []string{"1.0", "*", "guess-small", "trans", "vlist", "0.0", "10"} {
		ds = append(ds, nearMisses(d, tokenChars)...)
	}
	n := 5
	if thorough(tier) {
		n = 6
	}
	ds = append(ds, words("10.*+x", n)...)
	ds = append(ds, "1.0e0", "1e0", "0x1p0", "01.0", "1.00", "1.", "1.0.0", "+1.0", "1.0*", "**", "guess_small", "guesssmall", "guess-smal", "guess-small-", "guess", "small", "inf", "nan", "infinity", "1.1", "1.01", "9.9", "1.0-beta", "rvsa-1.0", "rvsa/1.0", "choice", "adhoc", "re-choose")
	rest := []string{"", "trans", "vlist", "x-ext"}
	return []*Space{{Name: "words that resemble directives", Dims: []int{len(ds), len(rest), 2, 2}, Run: func(d []int, t *T) string {
		v, r := ds[d[0]], rest[d[1]]
		if v == "" {
			return t.Skip()
		}
		if r == "" && d[2]+d[3] > 0 {
			return t.Skip()
		}
		vs := []string{v}
		if r != "" {
			vs = append(vs, r)
		}
		if d[2] == 1 {
			vs[0], vs[1] = vs[1], vs[0]
		}
		hh := http.Header{"Negotiate": vs}
		if d[3] == 1 {
			hh = http.Header{"Negotiate": {strings.Join(vs, ",")}}
		}
		guess := strings.EqualFold(v, "guess-small")
		choose := guess || v == "1.0" || v == "*"
		reps := []*Rep{plain(0), plain(1)}
		for i, r := range reps {
			r.Loc = mustURL(fmt.Sprintf("http://h.example/a/v%d", i))
		}
		n := transparent.New(transparent.RVSA(pickIndex(1)))
		t.Describe(func() any { return describe(hh, reps) })
		rec, err := negotiateAny(n, hh, reps)
		t.Exec(1)
		t.Step("word", hashStr(v), uint64(d[1]))
		t.Outcome(fmt.Sprintf("choice %v", choose))
		want := none
		if choose {
			want = 1
		}
		return tcnResponse(rec, err, reps, want, nil)
	}}}
}

// foreignSpaces: the choosers choose what was not among the representations.
func foreignSpaces(string) []*Space {
	type config struct {
		name   string
		n      func(ch representation.Chooser) negotiator.Negotiator
		h      http.Header
		status int
		// lists tells that the foreign one is chosen instead of a list.
		lists, tcn bool
	}
	one := func(rs ...representation.Representation) representation.Representation {
		return &Rep{ID: 60, CT: "application/x-list", Body: bodyFor(60, 40)}
	}
	ok := []config{
		{name: "proactive", n: func(c representation.Chooser) negotiator.Negotiator { return proactive.New(proactive.Algorithm(c)) }, status: 200},
		{name: "proactive, headers", n: func(c representation.Chooser) negotiator.Negotiator { return proactive.New(proactive.Algorithm(c)) }, h: http.Header{"Accept": {"image/png, */*;q=0.1"}, "Accept-Language": {"de, *;q=0.1"}, "Accept-Charset": {"utf-16, *;q=0.1"}, "Accept-Encoding": {"br, *;q=0.5"}}, status: 200},
		{name: "not strict", n: func(c representation.Chooser) negotiator.Negotiator {
			return proactive.New(proactive.Algorithm(c), proactive.DisableStrictMode())
		}, h: http.Header{"Accept": {"text/html, */*;q=0.1"}}, status: 200},
		{name: "406", n: func(c representation.Chooser) negotiator.Negotiator {
			return proactive.New(proactive.Algorithm(c), proactive.Representations(one, one))
		}, status: 406, lists: true},
		{name: "406, one list", n: func(c representation.Chooser) negotiator.Negotiator {
			return proactive.New(proactive.Algorithm(c), proactive.Representations(one), proactive.DefaultRepresentation(one))
		}, status: 406, lists: true, h: http.Header{"Accept": {"*/*"}}},
		{name: "transparent", n: func(c representation.Chooser) negotiator.Negotiator { return transparent.New(transparent.RVSA(c)) }, h: http.Header{"Negotiate": {"1.0"}}, status: 200, tcn: true},
		{name: "transparent, any", n: func(c representation.Chooser) negotiator.Negotiator { return transparent.New(transparent.RVSA(c)) }, h: http.Header{"Negotiate": {"*"}, "Accept": {"image/png"}}, status: 200, tcn: true},
		{name: "transparent, guess", n: func(c representation.Chooser) negotiator.Negotiator {
			return transparent.New(transparent.RVSA(c), transparent.GuessSmallThreshold(5000))
		}, h: http.Header{"Negotiate": {"guess-small"}}, status: 200, tcn: true},
	}
	type foreign struct {
		name string
		mk   func(r *Rep) representation.Representation
	}
	change := func(name string, f func(r *Rep)) foreign {
		return foreign{name, func(r *Rep) representation.Representation {
			x := *r
			f(&x)
			return &x
		}}
	}
	kinds := []foreign{
		{"the same", func(r *Rep) representation.Representation { return r }},
		change("a copy", func(r *Rep) {}),
		change("another location", func(r *Rep) { r.Loc = mustURL("http://h.example/a/other") }),
		change("another type", func(r *Rep) { r.CT = "image/png" }),
		change("another language", func(r *Rep) { r.CL = "nl" }),
		change("another charset", func(r *Rep) { r.CC = "koi8-r" }),
		change("other codings", func(r *Rep) { r.CE = []string{"br", "gzip"} }),
		change("no metadata", func(r *Rep) { *r = Rep{Loc: r.Loc, Body: r.Body, ID: r.ID} }),
		change("another body", func(r *Rep) { r.Body = []byte("something else") }),
		change("no body", func(r *Rep) { r.Body = nil }),
		change("no quality", func(r *Rep) { r.SQ = 0 }),
		{"a value", func(r *Rep) representation.Representation { return held{r} }},
		{"a value with another location", func(r *Rep) representation.Representation {
			x := *r
			x.Loc = mustURL("http://h.example/a/w")
			return held{&x}
		}},
	}
	return []*Space{{Name: "choices that were not given", Dims: []int{len(ok), len(kinds), 3, 3}, Run: func(d []int, t *T) string {
		c, k := ok[d[0]], kinds[d[1]]
		reps := resource(d[2] + 1)
		for i, r := range reps {
			r.Loc = mustURL(fmt.Sprintf("http://h.example/a/v%d", i))
		}
		if d[3] > d[2] {
			return t.Skip()
		}
		var chosen representation.Representation
		calls := 0
		ch := chooserFunc(func(_ *http.Request, rs ...representation.Representation) (representation.Representation, error) {
			calls++
			if c.lists && calls == 1 {
				return nil, nil
			}
			x := reps[d[3]]
			if c.lists {
				x = &Rep{ID: 61, CT: "text/x-list", CL: "fr", CC: "utf-8", Loc: mustURL("/list"), Body: bodyFor(61, 30)}
			}
			chosen = k.mk(x)
			return chosen, nil
		})
		t.Describe(func() any {
			return map[string]any{"negotiator": c.name, "choice": k.name, "of": d[3], "input": describe(c.h, reps)}
		})
		rec, err := negotiate(c.n(ch), request(c.h.Clone(), nil), false, asReps(reps)...)
		t.Exec(1)
		t.Step("foreign", hashStr(c.name), hashStr(k.name))
		t.Outcome(fmt.Sprint(c.name))
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		if m := protocol(rec, err); m != "" {
			return m
		}
		if m := consistent(rec); m != "" {
			return m
		}
		if chosen == nil {
			return "the chooser was not consulted"
		}
		if rec.status() != c.status {
			return fmt.Sprintf("status %d, the chooser demands %d", rec.status(), c.status)
		}
		b, _ := chosen.Bytes()
		if !bytes.Equal(rec.body, b) {
			return fmt.Sprintf("body %q, the chooser chose %q", rec.body, b)
		}
		loc := chosen.ContentLocation()
		want := map[string]string{"Content-Type": chosen.ContentType(), "Content-Language": chosen.ContentLanguage(), "Content-Charset": chosen.ContentCharset(), "Content-Encoding": strings.Join(chosen.ContentEncoding(), ","), "Content-Location": loc.String()}
		for k, w := range want {
			if c.lists && k == "Content-Location" {
				continue
			}
			if rec.get(k) != w {
				return fmt.Sprintf("%s %q, the chooser chose %q", k, rec.get(k), w)
			}
		}
		if c.tcn {
			return checkAlternates(rec.snapshot.Values("Alternates"), reps, false)
		}
		return ""
	}}}
}

// keptSpaces hold the results of serializations while others take place.
func keptSpaces(tier string) []*Space {
	type ser struct {
		name string
		do   func() ([]byte, error)
		want []byte
	}
	var ops []*ser
	for ti, ct := range docTypes[:3] {
		for _, ce := range [][]string{nil, {"gzip"}, {"deflate"}, {"compress"}, {"gzip", "deflate"}, {"identity"}} {
			for k := 1; k < 3; k++ {
				if ti > 0 && k > 1 {
					continue
				}
				ct, ce, k := ct, ce, k
				ops = append(ops, &ser{name: fmt.Sprintf("document %d as %s %v", k, ct, ce), do: func() ([]byte, error) { return newDoc(&docs[k], ct, ce).Bytes() }})
			}
		}
	}
	for _, ct := range []string{"application/json", "text/html"} {
		ct := ct
		ops = append(ops, &ser{name: "list as " + ct, do: func() ([]byte, error) { return newList(ct, nil)(asReps(resource(2))...).Bytes() }})
	}
	shared := newDoc(&docs[1], docTypes[0], []string{"gzip"})
	plainShared := newDoc(&docs[1], docTypes[0], nil)
	ops = append(ops, &ser{name: "the same document again", do: shared.Bytes}, &ser{name: "the same plain document again", do: plainShared.Bytes})
	for _, o := range ops {
		b, err := o.do()
		must(err)
		o.want = append([]byte(nil), b...)
	}
	depth := 3
	if thorough(tier) {
		depth = 4
	}
	names := func(d []int) (out []string) {
		for _, k := range d {
			out = append(out, ops[k].name)
		}
		return
	}
	rare := 3
	if thorough(tier) {
		rare = 1
	}
	return []*Space{{Name: "kept and overwritten results", Dims: append([]int{2}, dup(len(ops), depth)...), Serial: true, Run: func(d []int, t *T) string {
		t.Describe(func() any { return map[string]any{"serializations": names(d[1:]), "overwritten": d[0] == 1} })
		// the third one is one of some.
		if d[len(d)-1]%rare != 0 && d[len(d)-1] != len(ops)-1 {
			return t.Skip()
		}
		var kept [][]byte
		for i, k := range d[1:] {
			b, err := ops[k].do()
			t.Exec(1)
			t.Step("serialized", uint64(d[0]), uint64(k), uint64(i))
			if err != nil {
				return fmt.Sprintf("unexpected error %q", err)
			}
			if !bytes.Equal(b, ops[k].want) {
				return fmt.Sprintf("%s is serialized as %q instead of %q", ops[k].name, b, ops[k].want)
			}
			kept = append(kept, b)
			if d[0] == 1 {
				for j := range b[:cap(b)] {
					b[:cap(b)][j] = '#'
				}
			}
		}
		t.Outcome(fmt.Sprintf("overwritten %v", d[0] == 1))
		for i, k := range d[1:] {
			if d[0] == 0 && !bytes.Equal(kept[i], ops[k].want) {
				return fmt.Sprintf("the serialized form of %s has changed from %q to %q", ops[k].name, ops[k].want, kept[i])
			}
		}
		return ""
	}}, {Name: "overwritten input", Dims: []int{len(docs), len(docTypes), 4, len(docs)}, Serial: true, Run: func(d []int, t *T) string {
		ce := [][]string{nil, {"gzip"}, {"deflate", "compress"}, {"identity"}}[d[2]]
		ct := docTypes[d[1]]
		t.Describe(func() any { return map[string]any{"documents": []int{d[0], d[3]}, "type": ct, "codings": ce} })
		b, err := newDoc(&docs[d[0]], ct, ce).Bytes()
		must(err)
		r := newDoc(nil, ct, ce)
		if err := r.FromBytes(b); err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		for j := range b {
			b[j] = '#'
		}
		o := newDoc(nil, ct, ce)
		ob, err := newDoc(&docs[d[3]], ct, ce).Bytes()
		must(err)
		if err := o.FromBytes(ob); err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		t.Exec(2)
		t.Step("read", uint64(d[0]), uint64(d[1]), uint64(d[2]), uint64(d[3]))
		t.Outcome("read")
		if !sameDoc(r, &docs[d[0]]) {
			return fmt.Sprintf("what was read has changed to %+v", r.data())
		}
		return ""
	}}}
}

// largeSpaces are documents that only streaming would not notice.
func largeSpaces(tier string) []*Space {
	top := 24
	if thorough(tier) {
		top = 27
	}
	cs := [][]string{nil, {"gzip"}, {"deflate"}, {"compress"}, {"gzip", "deflate", "compress"}}
	return []*Space{{Name: "scale: large content", Dims: []int{top - 16, 3, len(cs), 2}, Slow: true, Run: func(d []int, t *T) string {
		n := 1<<(17+d[0]) + []int{-1, 0, 1}[d[1]]
		if n > 1<<22 && d[1] != 2 {
			return t.Skip()
		}
		content := bytes.Repeat([]byte("0123456789abcdef"), n/16+1)[:n]
		copy(content[n-3:], "end")
		if d[3] == 1 {
			content = []byte(noise(n))
		}
		ce := cs[d[2]]
		t.Describe(func() any { return map[string]any{"length": n, "codings": ce, "noise": d[3] == 1} })
		t.Step("large", uint64(n), uint64(d[2]), uint64(d[3]))
		t.Exec(2)
		var read []byte
		x := &blob{}
		x.SetContentType("application/x-blob")
		x.SetContentEncoding(ce)
		x.SetMarshallers(map[string]representation.Marshaller{"application/x-blob": func(interface{}) ([]byte, error) { return content, nil }})
		x.SetUnmarshallers(map[string]representation.Unmarshaller{"application/x-blob": func(b []byte, _ interface{}) error {
			read = append([]byte(nil), b...)
			return nil
		}})
		b, err := x.Bytes()
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		if p, err := decodeRef(ce, b); err != nil || !bytes.Equal(p, content) {
			return fmt.Sprintf("%d bytes are serialized as %d bytes that decode to %d (error %v)", n, len(b), len(p), err)
		}
		if err := x.Base.FromBytes(b, x); err != nil {
			return fmt.Sprintf("reading back %d bytes: %q", n, err)
		}
		t.Outcome("large")
		if !bytes.Equal(read, content) {
			return fmt.Sprintf("read back %d of %d bytes", len(read), n)
		}
		return ""
	}}}
}

// factorSpaces compare the factors of two variants.
func factorSpaces(tier string) []*Space {
	// factors in ten-thousandths.
	var fs []int
	for _, x := range []int{0, 1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 4999, 5000, 5001, 5004, 5005, 9990, 9999, 10000, 10001, 10010, 12000, 12345, 15000, 19999, 20000, 25000, 99990, 100000, 100010, 990000, 1000000, 1000010, 9999990} {
		fs = append(fs, x)
	}
	text := func(x, form int) string {
		s := fmt.Sprintf("%d.%04d", x/10000, x%10000)
		short := strings.TrimRight(strings.TrimRight(s, "0"), ".")
		switch form {
		case 0:
			return short
		case 1:
			return s
		case 2:
			return "0" + short
		}
		if len(short)-strings.IndexByte(short+".", '.') < 4 && strings.Contains(short, ".") {
			return short + "0"
		}
		return s
	}
	return []*Space{{Name: "pairs of factors", Dims: []int{len(fs), len(fs), 2, 2, 5, 2}, Run: func(d []int, t *T) string {
		a, b := fs[d[0]], fs[d[1]]
		reps := []*Rep{plain(0), plain(1)}
		for i, x := range []int{a, b} {
			f := text(x, (d[4]+i)%5)
			// the feature is supported or not: the other factor does not matter.
			e := "tables;+" + f
			if d[2] == 1 {
				e = "frames;-" + f
			}
			if d[3] == 1 {
				e = map[int]string{0: "[tables x];+" + f + "-3", 1: "[frames x];+2-" + f}[d[2]]
			}
			reps[i].CF = []string{e}
			reps[i].SQ = []float32{1, 0.5}[d[5]]
		}
		hh := http.Header{"Accept-Features": {"tables, !frames"}}
		t.Describe(func() any { return describe(hh, reps) })
		got, err := transparent.RVSA1().Choose(request(hh, nil), asReps(reps)...)
		t.Exec(1)
		t.Step("factors", uint64(a), uint64(b), uint64(d[5]))
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		want := 0
		if b > a {
			want = 1
		}
		t.Outcome(fmt.Sprint("chose ", want))
		if a == 0 && b == 0 {
			if got != nil {
				return "chose a variant of quality 0"
			}
			return ""
		}
		if got != representation.Representation(reps[want]) {
			return fmt.Sprintf("chose the other variant, the factors are %s and %s", text(a, 0), text(b, 0))
		}
		return ""
	}}}
}

// nearSpaces: attributes and ranges that resemble each other.
func nearSpaces(kind byte) func(tier string) []*Space {
	return func(tier string) []*Space {
		type field struct {
			key   string
			words []string
			set   func(r *Rep, v string)
		}
		charset := func(r *Rep, v string) { r.CC = v }
		fields := []field{
			{"Accept-Charset", []string{"utf-8", "iso-8859-1", "us-ascii", "x"}, charset},
			{"Accept", []string{"text/html", "application/vnd.a+json", "a/b"}, func(r *Rep, v string) { r.CT = v }},
		}
		if kind == 'p' {
			fields = append(fields, field{"Accept-Encoding", []string{"gzip", "compress", "deflate", "br"}, func(r *Rep, v string) { r.CE = []string{v} }})
		}
		type pair struct {
			f          int
			exact, sim string
		}
		var pairs []pair
		alphabet := tokenChars
		if !thorough(tier) {
			alphabet = "abpxz0189-+._"
		}
		for f, x := range fields {
			for _, w := range x.words {
				for _, s := range nearMisses(w, alphabet) {
					if s == "" || strings.ContainsAny(s, "*") || x.key == "Accept" && strings.Count(s, "/") != 1 || strings.HasPrefix(s, "/") || strings.HasSuffix(s, "/") {
						continue
					}
					pairs = append(pairs, pair{f, w, s})
				}
			}
		}
		known := map[string]bool{"gzip": true, "compress": true, "deflate": true, "identity": true, "br": true, "x-gzip": true, "x-compress": true}
		n := negotiator.Negotiator(proactive.New(proactive.DisableNotAcceptableRepresentation()))
		if kind == 't' {
			n = transparent.New()
		}
		return []*Space{{Name: "values that resemble ranges", Dims: []int{len(pairs), 2, 3}, Run: func(d []int, t *T) string {
			p := pairs[d[0]]
			f := fields[p.f]
			rangeText, value := p.exact, p.sim
			if d[1] == 1 {
				rangeText, value = p.sim, p.exact
			}
			if f.key == "Accept-Encoding" && !known[strings.ToLower(rangeText)] {
				return t.Skip()
			}
			hh := http.Header{f.key: {rangeText}}
			r := plain(0)
			r.Loc = mustURL("http://h.example/a/v")
			f.set(r, value)
			reps := []*Rep{r}
			match := strings.EqualFold(rangeText, value)
			if d[2] == 1 {
				hh[f.key] = []string{rangeText + ";q=0.3"}
			}
			want := none
			if match {
				want = 0
			}
			if d[2] == 2 {
				// another one is accepted, but worse.
				o := plain(1)
				o.Loc = mustURL("http://h.example/a/w")
				f.set(o, map[string]string{"Accept-Charset": "koi8-r", "Accept": "image/png", "Accept-Encoding": "identity"}[f.key])
				hh[f.key] = []string{map[string]string{"Accept-Charset": "koi8-r;q=0.2", "Accept": "image/png;q=0.2", "Accept-Encoding": "identity;q=0.2"}[f.key], rangeText}
				reps = append(reps, o)
				if !match {
					want = 1
				}
			}
			if f.key == "Accept-Encoding" && d[2] < 2 {
				hh[f.key] = append(hh[f.key], "identity;q=0")
			}
			t.Step("near", hashStr(rangeText), hashStr(value), uint64(d[2]))
			t.Exec(1)
			if kind == 'p' {
				t.Describe(func() any { return describe(hh, reps) })
				rec, err := negotiateAny(n, hh, reps)
				return expectChoice(rec, err, reps, want, t)
			}
			hh["Negotiate"] = []string{"1.0"}
			t.Describe(func() any { return describe(hh, reps) })
			rec, err := negotiateAny(n, hh, reps)
			t.Outcome(fmt.Sprint("chose ", want))
			return tcnResponse(rec, err, reps, want, nil)
		}}}
	}
}

func init() {
	extend("T01", directiveSpaces)
	extend("O01", foreignSpaces)
	extend("C01", foreignSpaces)
	for _, id := range []string{"S01", "S02", "S04"} {
		extend(id, keptSpaces)
	}
	for _, id := range []string{"S01", "S02"} {
		extend(id, largeSpaces)
	}
	extend("T03", factorSpaces)
	extend("P01", nearSpaces('p'))
	extend("T02", nearSpaces('t'))
}

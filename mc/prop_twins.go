package main

import (
	"bytes"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/fnv"
	"net/http"
	"net/url"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/transparent"
)

// A twinField is a place for a text in a representation, and in the header
// that is negotiated with it.
type twinField struct {
	name string
	// rep puts the text into a representation.
	rep func(r *Rep, v string)
	// header puts the text into the request, if it belongs into one.
	header func(h http.Header, v string)
	// pro and tr tell whether proactive and transparent negotiation compare
	// the representation with the request.
	pro, tr bool
	// fold tells whether the comparison ignores case.
	fold bool
	// host limits the texts to those that a host name can consist of.
	host bool
}

func (f twinField) same(a, b string) bool {
	if f.fold {
		return strings.EqualFold(a, b)
	}
	return a == b
}

func twinFields() []twinField {
	set := func(k, before, after string) func(http.Header, string) {
		return func(h http.Header, v string) { h[k] = []string{before + v + after} }
	}
	return []twinField{
		{name: "subtype", pro: true, tr: true, fold: true, rep: func(r *Rep, v string) { r.CT = "text/" + v }, header: set("Accept", "text/", "")},
		{name: "type", pro: true, tr: true, fold: true, rep: func(r *Rep, v string) { r.CT = v + "/x" }, header: set("Accept", "", "/x;q=0.5")},
		{name: "parameter", pro: true, tr: true, rep: func(r *Rep, v string) { r.CT = "text/x;p=" + v }, header: set("Accept", "text/x;p=", "")},
		{name: "parameter name", pro: true, tr: true, fold: true, rep: func(r *Rep, v string) { r.CT = "text/x;" + v + "=1" }, header: set("Accept", "text/x;", "=1;q=0.7")},
		{name: "charset", pro: true, tr: true, fold: true, rep: func(r *Rep, v string) { r.CC = v }, header: set("Accept-Charset", "", "")},
		{name: "feature", tr: true, fold: true, rep: func(r *Rep, v string) { r.CF = []string{v} }, header: set("Accept-Features", "", "")},
		{name: "feature value", tr: true, rep: func(r *Rep, v string) { r.CF = []string{"t=" + v} }, header: set("Accept-Features", "t=", "")},
		{name: "language", rep: func(r *Rep, v string) { r.CL = v }},
		{name: "coding", rep: func(r *Rep, v string) { r.CE = []string{v} }},
		{name: "location", rep: func(r *Rep, v string) { r.Loc = mustURL("http://h.example/a/" + v) }},
		{name: "query", rep: func(r *Rep, v string) { r.Loc = mustURL("http://h.example/a/v?" + v) }},
		{name: "content", rep: func(r *Rep, v string) { r.Body = []byte(v) }},
		{name: "directory", tr: true, rep: func(r *Rep, v string) { r.Loc = mustURL("http://h.example/" + v + "/v") }, header: set("", "http://h.example/", "/r")},
		{name: "host", tr: true, fold: true, host: true, rep: func(r *Rep, v string) { r.Loc = mustURL("http://" + v + ".example/v") }, header: set("", "http://", ".example/r")},
	}
}

// A twin is a pair of texts that resemble each other, containing an
// identification such that no other negotiation has used them before.
type twin func(id string) (string, string)

func twins(thorough bool) (out []twin) {
	around := func(a, b string) {
		out = append(out, func(id string) (string, string) { return id + a, id + b })
		out = append(out, func(id string) (string, string) { return a + id, b + id })
	}
	// characters at both ends of the identification, which no other has.
	split := func(a, b, c, d string) {
		out = append(out, func(id string) (string, string) { return a + id + b, c + id + d })
	}
	sizes := []int{0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 16, 20, 24, 25, 26, 27, 28, 32, 40, 48, 57, 58, 59, 60, 64, 80, 100, 121, 122, 123, 124, 128, 192, 200, 249, 250, 251, 252, 256, 300, 500, 506, 512, 1000, 1024, 2048, 4096}
	if thorough {
		sizes = nil
		for i := 0; i < 600; i++ {
			sizes = append(sizes, i)
		}
		sizes = append(sizes, 1000, 1018, 1024, 2048, 4096, 8192, 65536)
	}
	for _, n := range sizes {
		n, p := n, strings.Repeat("p", n)
		around(p+"1", p+"2")
		out = append(out, func(id string) (string, string) { return "1" + p + id, "2" + p + id })
		out = append(out, func(id string) (string, string) { return id + p + "1" + p + id, id + p + "2" + p + id })
		if n > 0 {
			around(p, p+"p")
			around(p+"a", p+"A")
		}
	}
	// cases, permutations, equal sums, and equal values of simple hash functions.
	for _, x := range [][2]string{
		{"a", "A"}, {"aB", "Ab"}, {"aa", "AA"}, {"12", "21"}, {"abc", "cab"}, {"abab", "baba"}, {"ad", "bc"}, {"13", "22"}, {"Aa", "BB"}, {"AaAa", "BBBB"}, {"AaBB", "BBAa"}, {"bA", "ab"},
		{"1", "10"}, {"1", "01"}, {"1.0", "1.00"}, {"1", "1.0"}, {"x", "xx"}, {"x", "x-"}, {"x", "x."}, {"x", "x_"}, {"x-y", "x_y"}, {"x-y", "x.y"}, {"x-y", "xy"}, {"x.y", "xy"}, {"x_y", "xy"}, {"x+y", "xy"}, {"x+y", "x"}, {"x-y", "x"}, {"x.y", "x"},
		{"x-y", "y-x"}, {"x.y", "y.x"}, {"0", "o"}, {"1", "l"}, {"s", "z"}, {"a", "e"}, {"i", "y"}, {"00", "0"}, {"1e1", "10"}, {"0x1", "1"}, {"t", "true"}, {"x", ""},
	} {
		around(x[0], x[1])
	}
	split("1", "2", "2", "1")
	split("a", "", "", "a")
	split("a", "bc", "ab", "c")
	// equal checksums.
	crc := func(b []byte) uint64 { return uint64(crc32.ChecksumIEEE(b)) }
	sum := func(f func() hash.Hash32) func(b []byte) uint64 {
		return func(b []byte) uint64 { h := f(); h.Write(b); return uint64(h.Sum32()) }
	}
	for _, f := range []func([]byte) uint64{crc, sum(fnv.New32), sum(fnv.New32a), func(b []byte) (x uint64) {
		for _, c := range b {
			x = uint64(uint32(x)*31 + uint32(c))
		}
		return
	}, func(b []byte) (x uint64) {
		x = 5381
		for _, c := range b {
			x = uint64(uint32(x)*33 + uint32(c))
		}
		return
	}} {
		for _, x := range collisions(f, 2) {
			x := x
			out = append(out, func(string) (string, string) { return x[0], x[1] })
		}
	}
	return out
}

// collisions provides pairs of texts of one length that have the same value.
func collisions(f func([]byte) uint64, n int) (out [][2]string) {
	known := map[uint64]string{}
	x := uint64(1)
	for len(out) < n {
		x = mix(x, 77)
		s := fmt.Sprintf("k%014x", x>>8)
		k := f([]byte(s))
		if o, ok := known[k]; ok && o != s {
			out = append(out, [2]string{o, s})
			delete(known, k)
			continue
		}
		known[k] = s
	}
	return out
}

// twinOps are the ways of asking.
var twinOps = []string{"proactive", "proactive, asked for the other", "proactive, 406", "transparent", "transparent, asked for the other", "reactive"}

// twinAsk negotiates for the text v, while other is the text that is asked
// for instead in some of the ways.
func twinAsk(fs []twinField, op int, v, other []string, edit func(*Rep)) string {
	r := plain(0)
	h := http.Header{}
	u := ""
	match := map[byte]bool{'p': true, 't': true}
	for i, f := range fs {
		f.rep(r, v[i])
		if f.header == nil {
			// without a header the choice of a language is not definite.
			match['t'] = match['t'] && f.name != "language"
			continue
		}
		asked := v[i]
		if op == 1 || op == 4 {
			asked = other[i]
		}
		f.header(h, asked)
		if x := h[""]; x != nil {
			u = x[0]
			delete(h, "")
		}
		if !f.same(asked, v[i]) {
			match['p'] = match['p'] && !f.pro
			match['t'] = match['t'] && !f.tr
		}
	}
	if edit != nil {
		edit(r)
	}
	var n negotiator.Negotiator
	switch op {
	case 2:
		if r.CT == "" {
			r.CT = "text/none"
		}
		h["Accept"] = []string{"image/none"}
		match['p'] = false
		fallthrough
	case 0, 1:
		n = proactive.Default
	case 3, 4:
		h["Negotiate"] = []string{"1.0"}
		n = transparent.Default
	default:
		n = reactive.Default
	}
	req := request(h, nil)
	if u != "" {
		x, err := url.Parse(u)
		if err != nil {
			return ""
		}
		req.URL = x
	}
	rec, err := negotiate(n, req, false, asReps([]*Rep{r})...)
	if err != nil {
		return fmt.Sprintf("unexpected error %q", err)
	}
	reps := []*Rep{r}
	switch {
	case op < 3 && match['p']:
		if rec.status() != http.StatusOK || !bytes.Equal(rec.body, r.Body) {
			return fmt.Sprintf("status %d with %q instead of the representation", rec.status(), rec.body)
		}
		return describes(rec, r, true)
	case op < 3:
		if rec.status() != http.StatusNotAcceptable {
			return fmt.Sprintf("status %d with %q instead of 406", rec.status(), rec.body)
		}
		return checkList(rec.get("Content-Type"), rec.body, reps)
	case op < 5:
		want := none
		if match['t'] {
			want = 0
		}
		return tcnResponse(rec, err, reps, want, nil)
	}
	if rec.status() != http.StatusMultipleChoices {
		return fmt.Sprintf("status %d instead of 300", rec.status())
	}
	return checkList(rec.get("Content-Type"), rec.body, reps)
}

func twinSpaces(tier string) []*Space {
	fields := twinFields()
	all := twins(thorough(tier))
	k := len(twinOps)
	// run asks for the first text, for the second, and for the first again.
	run := func(fs []twinField, ops []int, a, b []string, edit [2]func(*Rep), t *T) string {
		t.Describe(func() any {
			return map[string]any{"fields": fmt.Sprint(len(fs), " from ", fs[0].name), "first": a, "second": b, "ways": []string{twinOps[ops[0]], twinOps[ops[1]]}}
		})
		t.Exec(3)
		if m := twinAsk(fs, ops[0], a, b, edit[0]); m != "" {
			return "first: " + m
		}
		if m := twinAsk(fs, ops[1], b, a, edit[1]); m != "" {
			return "second: " + m
		}
		if m := twinAsk(fs, ops[0], a, b, edit[0]); m != "" {
			return "the first again: " + m
		}
		t.Outcome(twinOps[ops[1]])
		return ""
	}
	nobody := [2]func(*Rep){}
	lists := [][2][]string{
		{{"ab", "c"}, {"a", "bc"}}, {{"a", "b"}, {"b", "a"}}, {{"a"}, {"a", "a"}}, {{"a", "b"}, {"a"}}, {{"a", "b"}, {"b"}}, {{"a", "a", "b"}, {"a", "b", "b"}}, {{"a", "b", "c"}, {"a", "c", "b"}}, {{"a", "b"}, {"ab"}}, {{"a", "b"}, {"a-b"}}, {{"a", "b"}, {"a.b"}}, {{"a", "b"}, {"A", "b"}},
	}
	coding := func(id string, l []string) func(*Rep) {
		return func(r *Rep) {
			for _, x := range l {
				r.CE = append(r.CE, x+id)
			}
		}
	}
	feature := func(id string, l []string) func(*Rep) {
		return func(r *Rep) {
			for _, x := range l {
				r.CF = append(r.CF, x+id)
			}
			r.SQ = 0
		}
	}
	codings := func(a, b []string) [2]func(*Rep) {
		return [2]func(*Rep){func(r *Rep) { r.CE = a }, func(r *Rep) { r.CE = b }}
	}
	return []*Space{
		{Name: "twins", Dims: []int{len(fields), len(all), k, k}, Run: func(d []int, t *T) string {
			f := fields[d[0]]
			id := fmt.Sprintf("k%02d%04d%d%dj", d[0], d[1], d[2], d[3])
			a, b := all[d[1]](id)
			if f.host && (strings.ContainsAny(a+b, "_+.") || strings.HasSuffix(a, "-") || strings.HasSuffix(b, "-") || len(a) > 60) {
				return t.Skip()
			}
			if f.header == nil && (d[2] == 1 || d[2] == 4 || d[3] == 1 || d[3] == 4) {
				return t.Skip()
			}
			t.Step("twins", uint64(d[0]), uint64(d[1]), uint64(d[2]))
			return run([]twinField{f}, []int{d[2], d[3]}, []string{a}, []string{b}, nobody, t)
		}},
		{Name: "twins in two fields", Dims: []int{len(fields), len(fields), 4, k, k}, Run: func(d []int, t *T) string {
			f, g := fields[d[0]], fields[d[1]]
			if d[0] == d[1] || (d[0] < 4 && d[1] < 4) || (f.name == "feature" || f.name == "feature value") && (g.name == "feature" || g.name == "feature value") {
				return t.Skip()
			}
			locations := map[string]bool{"location": true, "query": true, "directory": true, "host": true}
			if locations[f.name] && locations[g.name] {
				return t.Skip()
			}
			id := fmt.Sprintf("%02d%02d%d%d%dj", d[0], d[1], d[2], d[3], d[4])
			var a, b []string
			switch x, y := "k"+id, "l"+id; d[2] {
			case 0: // a boundary is shifted.
				a, b = []string{x + "c", y}, []string{x, "c" + y}
			case 1: // exchanged.
				a, b = []string{x, y}, []string{y, x}
			case 2: // only one differs.
				a, b = []string{x, y}, []string{x, y + "c"}
			case 3: // both are the same.
				a, b = []string{x, x}, []string{x, y}
			}
			t.Step("two", uint64(d[0]), uint64(d[1]), uint64(d[2]))
			return run([]twinField{f, g}, []int{d[3], d[4]}, a, b, nobody, t)
		}},
		{Name: "twins among lists", Dims: []int{2, len(lists), 2, k, k}, Run: func(d []int, t *T) string {
			ways := []int{d[3], d[4]}
			for _, w := range ways {
				if w == 1 || w == 4 || d[0] == 1 && w == 3 {
					return t.Skip()
				}
			}
			id := fmt.Sprintf("k%d%02d%d%d%dj", d[0], d[1], d[2], d[3], d[4])
			a, b := lists[d[1]][d[2]], lists[d[1]][1-d[2]]
			edit := [2]func(*Rep){coding(id, a), coding(id, b)}
			if d[0] == 1 {
				edit = [2]func(*Rep){feature(id, a), feature(id, b)}
			}
			t.Step("lists", uint64(d[0]), uint64(d[1]), uint64(d[2]))
			return run([]twinField{{name: "list", rep: func(r *Rep, v string) { r.Loc = mustURL("http://h.example/a/v") }}}, ways, []string{""}, []string{""}, edit, t)
		}},
		{Name: "joined lists", Dims: []int{4, k, k}, Run: func(d []int, t *T) string {
			for _, w := range d[1:] {
				if w == 1 || w == 4 {
					return t.Skip()
				}
			}
			id := fmt.Sprintf("k%d%d%dj", d[0], d[1], d[2])
			x, y := "a"+id, "b"+id
			edit := []([2]func(*Rep)){
				codings([]string{x, y}, []string{x + "," + y}),
				codings([]string{x, y}, []string{x + " " + y}),
				codings([]string{x, y}, []string{x + y}),
				codings([]string{x}, []string{x + y}),
			}[d[0]]
			t.Step("joined", uint64(d[0]))
			return run([]twinField{{name: "list", rep: func(r *Rep, v string) {}}}, d[1:], []string{""}, []string{""}, edit, t)
		}},
		// many texts one after another, and each of them again.
		{Name: "many texts", Dims: []int{len(fields), len(twinOps), 5}, Slow: true, Run: func(d []int, t *T) string {
			f := fields[d[0]]
			n := []int{2, 17, 130, 1100, 4200}[d[2]]
			if f.header == nil && (d[1] == 1 || d[1] == 4) {
				return t.Skip()
			}
			text := func(i int) []string { return []string{fmt.Sprintf("k%02d%d%d-%05dj", d[0], d[1], d[2], i)} }
			t.Describe(func() any {
				return map[string]any{"field": f.name, "texts": n, "first": text(0), "way": twinOps[d[1]]}
			})
			t.Exec(2 * n)
			t.Step("many", uint64(d[0]), uint64(d[1]), uint64(n))
			for round := 0; round < 2; round++ {
				for i := 0; i < n; i++ {
					if m := twinAsk([]twinField{f}, d[1], text(i), text((i+1)%n), nil); m != "" {
						return fmt.Sprintf("text %d of round %d: %s", i, round, m)
					}
				}
			}
			t.Outcome(fmt.Sprint(n, " texts"))
			return ""
		}},
	}
}

func init() { extend("P10", twinSpaces) }

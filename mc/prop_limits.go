package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// Nothing is limited but what the documentation limits: numbers of options,
// of elements, of variants, of tables and of negotiations, whatever the place
// of the one that matters.

// optionLimits: one option that matters at every place among many.
func optionLimits(tier string) []*Space {
	ss := scale(130)
	return []*Space{
		{Name: "scale: number of options", Dims: []int{3, len(ss), len(ss), 3}, Run: func(d []int, t *T) string {
			m, j := ss[d[1]], ss[d[2]]-1
			if j >= m {
				return t.Skip()
			}
			reps := resource(2)
			hh := http.Header{"Accept": {"image/png"}}
			var n negotiator.Negotiator
			want, typ := 0, "application/xml"
			// the others are harmless, or set the same setting before.
			before := d[3] == 1 || d[3] == 2
			switch d[0] {
			case 0:
				var o []proactive.Option
				for i := 0; i < m; i++ {
					switch {
					case i == j:
						o = append(o, proactive.Representations(newList("application/xml", nil)), proactive.DefaultRepresentation(newList("application/xml", nil)))
					case i < j && before:
						o = append(o, proactive.DefaultRepresentation(newList("application/yaml", nil)))
					case d[3] == 2:
						o = append(o, proactive.Scope(tally.NoopScope))
					default:
						o = append(o, proactive.Logger(zap.NewNop()))
					}
				}
				n, want = proactive.New(o...), 406
			case 1:
				hh = http.Header{"Negotiate": {"trans"}}
				var o []transparent.Option
				for i := 0; i < m; i++ {
					switch {
					case i == j:
						o = append(o, transparent.ListRepresentation(newList("application/xml", nil)))
					case i < j && before:
						o = append(o, transparent.ListRepresentation(newList("application/yaml", nil)))
					case d[3] == 2:
						o = append(o, transparent.GuessSmallThreshold(i))
					default:
						o = append(o, transparent.Logger(zap.NewNop()))
					}
				}
				n, want = transparent.New(o...), 300
			default:
				var o []reactive.Option
				for i := 0; i < m; i++ {
					switch {
					case i == j:
						o = append(o, reactive.Representation(newList("application/xml", nil)))
					case i < j && before:
						o = append(o, reactive.Representation(newList("application/yaml", nil)))
					case d[3] == 2:
						o = append(o, reactive.Scope(tally.NoopScope))
					default:
						o = append(o, reactive.Logger(zap.NewNop()))
					}
				}
				n, want = reactive.New(o...), 300
			}
			t.Describe(func() any { return map[string]any{"kind": d[0], "options": m, "the one that matters": j} })
			t.Step("options", uint64(d[0]), uint64(m), uint64(j))
			rec, err := negotiate(n, request(hh, nil), false, asReps(reps)...)
			t.Exec(1)
			t.Outcome(fmt.Sprint(d[0], " ", want))
			if err != nil {
				return fmt.Sprintf("unexpected error %q", err)
			}
			if rec.status() != want || rec.get("Content-Type") != typ {
				return fmt.Sprintf("answered %d with %q, the configuration demands %d with %q", rec.status(), rec.get("Content-Type"), want, typ)
			}
			return checkList(typ, rec.body, reps)
		}},
		{Name: "scale: number of lists", Dims: []int{len(ss), len(ss)}, Run: func(d []int, t *T) string {
			m, j := ss[d[0]], ss[d[1]]-1
			if j >= m {
				return t.Skip()
			}
			var cs []representation.ListConstructor
			for i := 0; i < m; i++ {
				cs = append(cs, newList("application/yaml", nil))
			}
			cs[j] = newList("application/xml", nil)
			n := proactive.New(proactive.Representations(cs...))
			reps := resource(2)
			hh := http.Header{"Accept": {"application/xml"}}
			t.Describe(func() any { return map[string]any{"lists": m, "the acceptable one": j} })
			t.Step("lists", uint64(m), uint64(j))
			rec, err := negotiate(n, request(hh, nil), false, asReps(reps)...)
			t.Exec(1)
			t.Outcome("list")
			if err != nil || rec.status() != 406 || rec.get("Content-Type") != "application/xml" {
				return fmt.Sprintf("answered %d with %q (error %v), the request selects application/xml", rec.status(), rec.get("Content-Type"), err)
			}
			return checkList("application/xml", rec.body, reps)
		}},
	}
}

// big numbers of representations.
func bigNumbers(tier string) []int {
	if thorough(tier) {
		return []int{256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 2049, 4095, 4096, 4097, 5000, 8193, 10000, 10001, 16385, 32769, 65535, 65536, 65537}
	}
	return []int{256, 257, 300, 500, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2049, 4095, 4096, 4097, 5000, 10001}
}

// listLimits: lists of thousands of representations.
func listLimits(kind byte) func(tier string) []*Space {
	return func(tier string) []*Space {
		ns := bigNumbers(tier)
		formats := []string{"application/json", "application/xml", "application/yaml", "text/html"}
		return []*Space{{Name: "scale: thousands of representations", Dims: []int{len(ns), len(formats)}, Run: func(d []int, t *T) string {
			m, ct := ns[d[0]], formats[d[1]]
			reps := make([]*Rep, m)
			for i := range reps {
				reps[i] = plain(i)
				reps[i].Body = []byte("body")
				reps[i].Loc = mustURL(fmt.Sprintf("http://h.example/a/v%d", i))
				reps[i].CT = fmt.Sprintf("text/x%d", i%10)
			}
			t.Describe(func() any { return map[string]any{"n": m, "type": ct} })
			t.Step("list", uint64(m), uint64(d[1]))
			t.Outcome(ct)
			t.Exec(1)
			if kind == 'l' {
				b, err := newList(ct, nil)(asReps(reps)...).Bytes()
				if err != nil {
					return fmt.Sprintf("unexpected error %q", err)
				}
				return checkList(ct, b, reps)
			}
			var n negotiator.Negotiator
			hh := http.Header{}
			want := 300
			switch kind {
			case 'p':
				n, want = proactive.New(proactive.Representations(newList(ct, nil)), proactive.DefaultRepresentation(newList(ct, nil))), 406
				hh["Accept"] = []string{"image/png"}
			case 't':
				n = transparent.New(transparent.ListRepresentation(newList(ct, nil)), transparent.MaximumVariantListSize(m))
				hh["Negotiate"] = []string{"vlist"}
			default:
				n = reactive.New(reactive.Representation(newList(ct, nil)))
			}
			rec, err := negotiate(n, request(hh, nil), false, asReps(reps)...)
			if err != nil {
				return fmt.Sprintf("unexpected error %q", err)
			}
			if kind == 't' {
				if m := tcnResponse(rec, err, reps, none, nil); m != "" {
					return m
				}
			}
			if rec.status() != want || rec.get("Content-Type") != ct {
				return fmt.Sprintf("answered %d with %q", rec.status(), rec.get("Content-Type"))
			}
			return checkList(ct, rec.body, reps)
		}}}
	}
}

// choiceLimits: the one that matters among thousands.
func choiceLimits(kind byte) func(tier string) []*Space {
	return func(tier string) []*Space {
		ns := bigNumbers(tier)
		return []*Space{{Name: "scale: one among thousands", Dims: []int{len(ns), 4, 2}, Run: func(d []int, t *T) string {
			m := ns[d[0]]
			k := []int{0, m / 2, m - 2, m - 1}[d[1]]
			reps := make([]*Rep, m)
			for i := range reps {
				reps[i] = plain(i)
				reps[i].CT, reps[i].Body = "text/plain", bodyFor(i, 12)
				if i == k {
					reps[i].CT = "text/html"
				}
			}
			hh := http.Header{"Accept": {[]string{"text/html, */*;q=0.5", "text/html"}[d[2]]}}
			var n negotiator.Negotiator = proactive.New(proactive.DisableNotAcceptableRepresentation())
			want := k
			if kind == 't' {
				hh["Negotiate"] = []string{"1.0"}
				n = transparent.New(transparent.MaximumVariantListSize(m))
			}
			t.Describe(func() any { return map[string]any{"n": m, "the best one": k, "request": hh} })
			t.Step("choice", uint64(m), uint64(k))
			rec, err := negotiate(n, request(hh, nil), false, asReps(reps)...)
			t.Exec(1)
			if kind == 't' {
				t.Outcome("choice")
				return tcnResponse(rec, err, reps, want, nil)
			}
			return expectChoice(rec, err, reps, want, t)
		}}}
	}
}

// spelledMany: many elements in one line, in as many lines, and in groups.
func spelledMany(tier string) []*Space {
	ss := scale(257)
	nn := proactive.New(proactive.DisableNotAcceptableRepresentation())
	tr := transparent.New()
	ng := func(key string) []negotiator.Negotiator {
		if key == "Negotiate" || key == "Accept-Features" {
			return []negotiator.Negotiator{tr}
		}
		return []negotiator.Negotiator{nn}
	}
	keys := []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding", "Negotiate", "Accept-Features"}
	matter := map[string][]string{
		"Accept": {"text/html", "image/png;q=0"}, "Accept-Language": {"fr", "de;q=0"}, "Accept-Charset": {"iso-8859-1", "shift_jis;q=0"},
		"Accept-Encoding": {"deflate", "identity;q=0"}, "Negotiate": {"1.0", "guess-small"}, "Accept-Features": {"tables", "!frames"},
	}
	other := func(key string, i int) string {
		switch key {
		case "Accept":
			return fmt.Sprintf("audio/x%d;q=0.3", i)
		case "Accept-Language":
			return []string{"ja;q=0.3", "ko;q=0.2", "ru;q=0.1"}[i%3]
		case "Accept-Charset":
			return fmt.Sprintf("windows-%d;q=0.3", 1200+i)
		case "Accept-Encoding":
			return []string{"br;q=0.3", "compress;q=0.2", "gzip;q=0.1"}[i%3]
		case "Negotiate":
			return []string{"trans", "vlist", "2.0"}[i%3]
		default:
			return fmt.Sprintf("f%d", i)
		}
	}
	return []*Space{{Name: "scale: many elements", Dims: []int{len(keys), 2, len(ss), 3, 5}, Run: func(d []int, t *T) string {
		key, m := keys[d[0]], ss[d[2]]
		es := make([]string, m)
		for i := range es {
			es[i] = other(key, i)
		}
		es[[]int{0, m / 2, m - 1}[d[3]]] = matter[key][d[1]]
		var lines []string
		switch d[4] {
		case 0:
			lines = es
		case 1:
			lines = []string{strings.Join(es, ",")}
		case 2: // two elements per line
			for i := 0; i < m; i += 2 {
				lines = append(lines, strings.Join(es[i:min(i+2, m)], ", "))
			}
		case 3: // an empty element between each two
			lines = []string{strings.Join(es, ", ,")}
		case 4: // the last one has its own line
			lines = []string{strings.Join(es[:m-1], ", "), es[m-1]}
			if m == 1 {
				lines = es
			}
		}
		hh := http.Header{}
		switch key {
		case "Negotiate":
			hh["Accept-Features"] = []string{"tables"}
		case "Accept-Features":
			hh["Negotiate"] = []string{"1.0"}
		}
		reps := syntaxReps()
		if key == "Negotiate" || key == "Accept-Features" {
			reps = []*Rep{plain(0), plain(1)}
			reps[0].CF, reps[0].SQ, reps[1].SQ = []string{[]string{"tables", "!frames"}[d[1]]}, 0.9, 0.8
		}
		return sameAnswer(ng(key), key, []string{strings.Join(es, ", ")}, lines, hh, reps, t)
	}}}
}

// longLogs: metadata of any length is logged as it was sent.
func longLogs(tier string) []*Space {
	ls := scale(1 << 12)
	kinds := []string{"200", "406", "list", "choice", "reactive"}
	return []*Space{{Name: "scale: long metadata", Dims: []int{len(kinds), 7, len(ls)}, Run: func(d []int, t *T) string {
		l := ls[d[2]]
		x := longName(l, 2, 'b')
		r := plain(0)
		switch d[1] {
		case 0:
			r.CT = "text/" + x
		case 1:
			r.CL = x
		case 2:
			r.CC = x
		case 3:
			r.CE = []string{x}
		case 4:
			for i := 0; i < l; i++ {
				r.CE = append(r.CE, []string{"gzip", "x-gzip"}[i%2])
			}
		case 5:
			r.Loc = mustURL("http://h.example/a/" + x)
		case 6:
			r.CF = []string{"tables", x}
		}
		core := &logCore{level: zapcore.InfoLevel}
		s := &scenario{name: kinds[d[0]], kind: 'p', nreps: 2, tweak: func(reps []*Rep) { *reps[0] = *r }, choose: pickRep(0)}
		switch kinds[d[0]] {
		case "406":
			s.custom, s.choose = true, pickNone
		case "list":
			s.kind, s.custom = 't', true
		case "choice":
			s.kind, s.header = 't', http.Header{"Negotiate": {"*"}}
		case "reactive":
			s.kind, s.custom, s.choose = 'r', true, nil
		}
		n, e := s.logged(zap.New(core)).build(noFaults(), nil)
		core.records = nil
		if s.custom {
			e.metadata = r
		}
		rec, err := s.run(n, e)
		t.Exec(1)
		t.Describe(func() any { return map[string]any{"kind": s.name, "attribute": d[1], "length": l} })
		t.Outcome(fmt.Sprintf("%s %d", s.name, rec.status()))
		t.Step("long", uint64(d[0]), uint64(d[1]), uint64(l))
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		return logsTell(core, rec, err)
	}}, {Name: "scale: number of representations", Dims: []int{3, len(scale(257))}, Run: func(d []int, t *T) string {
		m := scale(257)[d[1]]
		core := &logCore{level: zapcore.InfoLevel}
		s := &scenario{name: "ptr"[d[0] : d[0]+1], kind: "ptr"[d[0]], nreps: m, header: http.Header{"Accept": {"image/png"}, "Negotiate": {"trans"}}, topts: []transparent.Option{transparent.MaximumVariantListSize(m)}}
		n, e := s.logged(zap.New(core)).build(noFaults(), nil)
		core.records = nil
		rec, err := s.run(n, e)
		t.Exec(1)
		t.Describe(func() any { return map[string]any{"kind": s.name, "n": m} })
		t.Outcome(fmt.Sprintf("%s %d", s.name, rec.status()))
		t.Step("many", uint64(d[0]), uint64(m))
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		return logsTell(core, rec, err)
	}}}
}

// bodyLimits: bodies beyond a million bytes.
func bodyLimits(tier string) []*Space {
	ls := []int{1 << 20, 1<<20 + 1, 1 << 21, 1<<21 + 1, 5000001, 1 << 23}
	if thorough(tier) {
		ls = append(ls, 10000001, 1<<24+1, 1<<25+1, 1<<26+1)
	}
	kinds := []string{"200", "406", "list", "choice", "reactive"}
	return []*Space{{Name: "scale: large bodies", Dims: []int{len(kinds), len(ls)}, Slow: true, Run: func(d []int, t *T) string {
		r := plain(0)
		r.CT, r.CL, r.CC, r.Body = "text/html", "en", "utf-8", bytes.Repeat([]byte{'z'}, ls[d[1]])
		s := &scenario{name: kinds[d[0]], kind: 'p', nreps: 2, tweak: func(reps []*Rep) { *reps[0] = *r }, choose: pickRep(0)}
		want := 200
		switch kinds[d[0]] {
		case "406":
			s.custom, s.choose, want = true, pickNone, 406
		case "list":
			s.kind, s.custom, want = 't', true, 300
		case "choice":
			s.kind, s.header = 't', http.Header{"Negotiate": {"*"}}
		case "reactive":
			s.kind, s.custom, s.choose, want = 'r', true, nil, 300
		}
		n, e := s.build(noFaults(), nil)
		if s.custom {
			e.metadata = r
		}
		rec, err := s.run(n, e)
		t.Exec(1)
		t.Describe(func() any { return map[string]any{"kind": s.name, "length": ls[d[1]]} })
		t.Outcome(s.name)
		t.Step("large", uint64(d[0]), uint64(d[1]))
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		if m := protocol(rec, err); m != "" {
			return m
		}
		if rec.status() != want || !bytes.Equal(rec.body, r.Body) {
			return fmt.Sprintf("status %d with %d bytes", rec.status(), len(rec.body))
		}
		if c := rec.snapshot["Content-Length"]; len(c) != 1 || c[0] != fmt.Sprint(len(r.Body)) {
			return fmt.Sprintf("Content-Length is %q for %d bytes", c, len(r.Body))
		}
		return ""
	}}}
}

// faultLimits: one of many representations fails.
func faultLimits(metricsToo bool) func(tier string) []*Space {
	return func(tier string) []*Space {
		ss := scale(66)
		return []*Space{{Name: "scale: one of many fails", Dims: []int{6, len(ss), len(ss)}, Run: func(d []int, t *T) string {
			m, k := ss[d[1]], ss[d[2]]-1
			if k >= m {
				return t.Skip()
			}
			s := &scenario{name: fmt.Sprint("many ", d[0]), nreps: m, topts: []transparent.Option{transparent.MaximumVariantListSize(m)}}
			s.tweak = func(reps []*Rep) {
				for _, r := range reps {
					r.CT, r.CL, r.CC, r.CE = "text/html", "en-US", "utf-8", nil
				}
			}
			switch d[0] {
			case 0:
				s.kind, s.outcome = 'p', "ok"
			case 1:
				s.kind, s.outcome, s.header = 'p', "notacceptable", http.Header{"Accept": {"image/png"}}
			case 2:
				s.kind, s.outcome, s.header = 't', "list", http.Header{"Negotiate": {"trans"}}
			case 3:
				s.kind, s.outcome, s.header, s.choose = 't', "choice", http.Header{"Negotiate": {"*"}}, pickRep(0)
			case 4:
				s.kind, s.outcome, s.header, s.choose = 't', "choice", http.Header{"Negotiate": {"*"}}, pickRep(m-1)
			default:
				s.kind, s.outcome = 'r', "multiplechoices"
			}
			f := &faults{from: -1, kind: fmt.Sprintf("rep%d.", k)}
			if metricsToo {
				return countOutcomes([]*scenario{s, s}, []*faults{f, noFaults()}, t)
			}
			return runFaults(s, f, t)
		}}}
	}
}

// countLimits: hundreds of negotiations of a kind.
func countLimits(tier string) []*Space {
	ss := scenarios()
	ns := scale(258)
	if thorough(tier) {
		ns = scale(4097)
	}
	return []*Space{{Name: "scale: number of negotiations", Dims: []int{len(ss), len(ns)}, Run: func(d []int, t *T) string {
		if !thorough(tier) && ns[d[1]] > 40 && (d[0]+d[1])%5 != 0 {
			return t.Skip()
		}
		var st []*scenario
		var fs []*faults
		for i := 0; i < ns[d[1]]; i++ {
			st, fs = append(st, ss[d[0]]), append(fs, noFaults())
		}
		return countOutcomes(st, fs, t)
	}}}
}

// tableLimits: codecs of many names.
func tableLimits(tier string) []*Space {
	ss := scale(130)
	return []*Space{{Name: "scale: number of custom codecs", Dims: []int{2, len(ss), len(ss)}, Run: func(d []int, t *T) string {
		m, k := ss[d[1]], ss[d[2]]-1
		if k >= m {
			return t.Skip()
		}
		ms, us := map[string]representation.Marshaller{}, map[string]representation.Unmarshaller{}
		ws, rs := map[string]representation.EncodingWriterConstructor{}, map[string]representation.EncodingReaderConstructor{}
		used := ""
		for i := 0; i < m; i++ {
			i := i
			ms[fmt.Sprintf("x/y%d", i)] = func(interface{}) ([]byte, error) { return []byte(fmt.Sprintf("doc%d", i)), nil }
			us[fmt.Sprintf("x/y%d", i)] = func(b []byte, _ interface{}) error { used = fmt.Sprintf("%d:%s", i, b); return nil }
			ws[fmt.Sprintf("c%d", i)] = func(w io.WriteCloser) (io.WriteCloser, error) {
				_, err := w.Write([]byte(fmt.Sprintf("{%d}", i)))
				return w, err
			}
			rs[fmt.Sprintf("c%d", i)] = func(r io.Reader) (io.ReadCloser, error) {
				_, err := io.ReadFull(r, make([]byte, len(fmt.Sprintf("{%d}", i))))
				return io.NopCloser(r), err
			}
		}
		var x representation.Base
		x.SetMarshallers(ms)
		x.SetUnmarshallers(us)
		x.SetEncodingWriters(ws)
		x.SetEncodingReaders(rs)
		x.SetContentType(fmt.Sprintf("x/y%d", k))
		if d[0] == 1 {
			x.SetContentEncoding([]string{fmt.Sprintf("c%d", k)})
		}
		t.Describe(func() any { return map[string]any{"codecs": m, "used": k, "coded": d[0] == 1} })
		t.Step("tables", uint64(m), uint64(k), uint64(d[0]))
		t.Exec(2)
		t.Outcome("coded")
		b, err := x.Bytes(1)
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		want := fmt.Sprintf("doc%d", k)
		if d[0] == 1 {
			want = fmt.Sprintf("{%d}", k) + want
		}
		if string(b) != want {
			return fmt.Sprintf("wrote %q, the codecs write %q", b, want)
		}
		if err := x.FromBytes(b, 1); err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		if want := fmt.Sprintf("%d:doc%d", k, k); used != want {
			return fmt.Sprintf("read %q, the codecs read %q", used, want)
		}
		return ""
	}}}
}

// Pair is a value with two texts.
type Pair struct{ A, B string }

// Nested is a value with everything that can be changed in place.
type Nested struct {
	Name string
	List []string
	Map  map[string]string `xml:"-"`
	Sub  *Pair
	Any  interface{} `xml:"-"`
}

// lookAlikes are values that are different, but print alike in some way.
var lookAlikes = []any{
	[]string{"a b"}, []string{"a", "b"}, []string{"a, b"}, []string{"[a b]"}, []string{}, []string{""},
	Pair{"x B:y", ""}, Pair{"x", "y B:"}, Pair{"x", "y"}, Pair{"x y", ""}, Pair{"", "x y"},
	[]interface{}{"1"}, []interface{}{1}, []interface{}{nil}, []interface{}{"<nil>"}, []interface{}{true}, []interface{}{"true"}, []interface{}{1.5}, []interface{}{"1.5"},
	map[string]string{"a": "b c:d"}, map[string]string{"a": "b", "c": "d"}, map[string]string{}, map[string]interface{}{"a": 1}, map[string]interface{}{"a": "1"},
	"1", 1, 1.0, true, "true", "", " ", "a", "A", json.Number("1"),
	[]byte("a"), []int{97}, []string{"97"}, [1]int{97},
	&Pair{"x", "y"}, &Nested{Name: "x", Sub: &Pair{"1", "2"}}, &Nested{Name: "x", Sub: &Pair{"1", "3"}}, Nested{Name: "x", Sub: &Pair{"1", "2"}},
	&Nested{List: []string{"a", "b"}}, &Nested{List: []string{"b", "a"}},
	int64(1), uint8(1), float32(0.1), 0.1, 1e20, uint64(1) << 63,
}

// successionSpaces serialize values one after another, with the instance or
// with another one.
func successionSpaces(tier string) []*Space {
	types := []string{"application/json", "application/yaml", "text/yaml", "application/xml", "text/html"}
	codings := [][]string{nil, {"gzip"}}
	write := func(x *representation.Base, ct string, ce []string, v any) string {
		var want []byte
		failed := ""
		func() {
			defer func() {
				if p := recover(); p != nil {
					failed = fmt.Sprint(p)
				}
			}()
			if isXML(ct) {
				if _, err := xml.Marshal(v); err != nil {
					failed = err.Error()
					return
				}
			}
			want = plainBytes(ct, v)
		}()
		if failed != "" {
			return ""
		}
		b, err := x.Bytes(v)
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		p, err := decodeRef(ce, b)
		if err != nil {
			return fmt.Sprintf("the bytes %x are not encoded as %q: %v", b, ce, err)
		}
		if !bytes.Equal(p, want) {
			return fmt.Sprintf("wrote %q, the value is %q", p, want)
		}
		return ""
	}
	base := func(ct string, ce []string) *representation.Base {
		var x representation.Base
		x.SetContentType(ct)
		x.SetContentEncoding(ce)
		return &x
	}
	changes := []func(v *Nested){
		func(v *Nested) { v.List[0] = "c" },
		func(v *Nested) { v.List[1] = "" },
		func(v *Nested) { v.Map["k"] = "w" },
		func(v *Nested) { v.Map["n"] = "w" },
		func(v *Nested) { delete(v.Map, "k") },
		func(v *Nested) { v.Sub.A = "changed" },
		func(v *Nested) { v.Sub.A, v.Sub.B = v.Sub.B, v.Sub.A },
		func(v *Nested) { v.Any.([]interface{})[0] = 2 },
		func(v *Nested) { v.Any = v.Name },
		func(v *Nested) { v.Name = "other" },
		func(v *Nested) { v.List = v.List[:1] },
		func(v *Nested) { v.List = append(v.List, "d") },
		func(v *Nested) { v.Sub = nil },
		func(v *Nested) { v.Sub = &Pair{"p", "q"} },
	}
	n := len(lookAlikes)
	return []*Space{
		{Name: "values one after another", Dims: []int{len(types), len(codings), n, n, 2}, Run: func(d []int, t *T) string {
			ct, ce := types[d[0]], codings[d[1]]
			vs := []any{lookAlikes[d[2]], lookAlikes[d[3]], lookAlikes[d[2]]}
			t.Describe(func() any {
				return map[string]any{"type": ct, "codings": ce, "values": fmt.Sprintf("%#v, %#v", vs[0], vs[1])}
			})
			t.Step("succession", uint64(d[0]), uint64(d[1]), uint64(d[2]), uint64(d[3]))
			t.Outcome(ct)
			x := base(ct, ce)
			for i, v := range vs {
				if d[4] == 1 {
					x = base(ct, ce)
				}
				t.Exec(1)
				if m := write(x, ct, ce, v); m != "" {
					return fmt.Sprintf("value %d: %s", i, m)
				}
			}
			return ""
		}},
		{Name: "values changed in place", Dims: []int{len(types), len(codings), len(changes), len(changes), 3}, Run: func(d []int, t *T) string {
			ct, ce := types[d[0]], codings[d[1]]
			v := &Nested{Name: "x", List: []string{"a", "b"}, Map: map[string]string{"k": "v"}, Sub: &Pair{"1", "2"}, Any: []interface{}{1, "x"}}
			t.Describe(func() any { return map[string]any{"type": ct, "codings": ce, "changes": d[2:4]} })
			t.Step("changed", uint64(d[0]), uint64(d[1]), uint64(d[2]), uint64(d[3]))
			t.Outcome(ct)
			x := base(ct, ce)
			failed := false
			for i := 0; i < 3; i++ {
				if i > 0 {
					func() {
						defer func() { failed = failed || recover() != nil }()
						changes[d[1+i]](v)
					}()
				}
				if failed {
					return t.Skip() // the second change doesn't apply after the first
				}
				if d[4] == 1 {
					x = base(ct, ce)
				}
				var y any = v
				if d[4] == 2 {
					y = *v
				}
				t.Exec(1)
				if m := write(x, ct, ce, y); m != "" {
					return fmt.Sprintf("after %d changes: %s", i, m)
				}
			}
			return ""
		}},
		{Name: "bytes changed in place", Dims: []int{3, len(codings), 5, 5, 2}, Run: func(d []int, t *T) string {
			// one buffer has one form after the other.
			ct, ce := types[[]int{0, 1, 3}[d[0]]], codings[d[1]]
			pairs := []Pair{{"a", "b"}, {"b", "a"}, {"c", "d"}, {"", "ab"}, {"ab", ""}}
			t.Describe(func() any {
				return map[string]any{"type": ct, "codings": ce, "values": []Pair{pairs[d[2]], pairs[d[3]]}}
			})
			t.Step("buffer", uint64(d[0]), uint64(d[1]), uint64(d[2]), uint64(d[3]))
			t.Outcome(ct)
			x := base(ct, ce)
			buf := make([]byte, 4096)
			var got [3]Pair
			for i, k := range []int{d[2], d[3], d[2]} {
				b := encodeRef(ce, plainBytes(ct, pairs[k]))
				b = buf[:copy(buf, b)]
				if d[4] == 1 {
					x = base(ct, ce)
				}
				t.Exec(1)
				if err := x.FromBytes(b, &got[i]); err != nil {
					return fmt.Sprintf("unexpected error %q", err)
				}
				for j := range buf {
					buf[j] = 'x'
				}
				for j, k := range []int{d[2], d[3], d[2]}[:i+1] {
					if !reflect.DeepEqual(got[j], pairs[k]) {
						return fmt.Sprintf("read %+v, the content is %+v", got[j], pairs[k])
					}
				}
			}
			return ""
		}},
	}
}

func isXML(ct string) bool { return !strings.Contains(ct, "json") && !strings.Contains(ct, "yaml") }

func init() {
	extend("O01", optionLimits)
	extend("R01", listLimits('r'))
	extend("P04", listLimits('p'))
	extend("T04", listLimits('t'))
	extend("L01", listLimits('l'))
	extend("P02", choiceLimits('p'))
	extend("T02", choiceLimits('t'))
	extend("P05", spelledMany)
	extend("M01", longLogs)
	extend("P06", bodyLimits)
	extend("P07", faultLimits(false))
	extend("P08", faultLimits(true))
	extend("P08", countLimits)
	extend("S04", tableLimits)
	extend("S01", successionSpaces)
	extend("S02", successionSpaces)
}

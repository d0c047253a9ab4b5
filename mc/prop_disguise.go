package main

import (
	"bufio"
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"testing/iotest"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// A disguise is a place of a representation that could be mistaken for one of
// its negotiated attributes, but is none.
type disguise struct {
	name string
	set  func(r *Rep)
}

func disguises() (out []disguise) {
	out = append(out, disguise{"none", func(*Rep) {}})
	for _, p := range []string{"charset", "Charset", "lang", "language", "content-language", "encoding", "codings", "content-encoding", "version", "profile", "format", "features", "size", "qs", "length", "location", "type", "boundary"} {
		for _, v := range []string{"utf-8", "iso-8859-1", "fr", "gzip", "0", "1", "*"} {
			p, v := p, v
			out = append(out, disguise{"type with " + p + "=" + v, func(r *Rep) {
				if r.CT == "" {
					r.CT = "text/plain"
				}
				r.CT += ";" + p + "=" + v
			}})
		}
	}
	for _, l := range []string{"/a/v.html", "/a/v.fr", "/a/v.fr.html", "/a/v.html.gz", "/a/v.utf-8", "/a/v.json", "/a/fr/v", "/fr/v", "/a/v?lang=fr", "/a/v?format=json&charset=utf-8", "/a/v;charset=utf-8", "/a/v#fr", "/a/v.iso-8859-1.txt"} {
		l := l
		out = append(out, disguise{"location " + l, func(r *Rep) { r.Loc = mustURL("http://h.example" + l) }})
	}
	for _, f := range []string{"charset=utf-8", "utf-8", "fr", "language=fr", "gzip", "text/html", "tables;+1.5", "!tables", "q=0", "*"} {
		f := f
		out = append(out, disguise{"feature " + f, func(r *Rep) { r.CF = []string{f} }})
	}
	return
}

// disguiseSpaces: the model of the property knows nothing of disguises.
func disguiseSpaces(run func(h Headers, reps []*Rep, t *T) string) func(tier string) []*Space {
	return func(tier string) []*Space {
		ds := disguises()
		hs := []Headers{
			{},
			{Charset: []Rng{rng("utf-8", qNone)}},
			{Charset: []Rng{rng("utf-16", qNone), rng("*", 300)}},
			{Charset: []Rng{rng("utf-8", 0), rng("iso-8859-1", 400), rng("us-ascii", 700)}},
			{Lang: []Rng{rng("fr", qNone)}},
			{Lang: []Rng{rng("de", qNone), rng("*", 200)}},
			{Lang: []Rng{rng("fr", 0), rng("de", 700)}},
			{Enc: []Rng{rng("gzip", qNone)}},
			{Enc: []Rng{rng("identity", 0), rng("gzip", 500)}},
			{Enc: []Rng{rng("gzip", 0)}},
			{Accept: []Rng{rng("text/*", 300), rng("application/json", qNone)}},
			{Accept: []Rng{rng("text/html", 0), rng("*/*", 600)}},
			{Accept: []Rng{rng("text/plain", 400), rng("*/*", 200)}},
			{Accept: []Rng{rng("text/plain", qNone)}, Lang: []Rng{rng("fr", qNone), rng("de", 300)}, Charset: []Rng{rng("utf-8", qNone), rng("us-ascii", 300)}, Enc: []Rng{rng("gzip", qNone)}},
		}
		bases := []func(r *Rep){
			func(*Rep) {},
			func(r *Rep) { r.CT = "text/plain" },
			func(r *Rep) { r.CT, r.CC = "text/plain", "us-ascii" },
			func(r *Rep) { r.CT, r.CL = "application/json", "de" },
			func(r *Rep) { r.CT, r.CL, r.CC, r.CE = "text/plain", "de", "us-ascii", []string{"gzip"} },
			func(r *Rep) { r.CT, r.CL, r.CC, r.CE = "text/plain", "fr", "utf-8", []string{"deflate"} },
		}
		rivals := []func(r *Rep){
			nil,
			func(*Rep) {},
			func(r *Rep) { r.CT, r.CL, r.CC = "text/plain", "de", "us-ascii" },
			func(r *Rep) { r.CT, r.CL, r.CC, r.CE = "text/plain", "fr", "utf-8", []string{"gzip"} },
		}
		return []*Space{{Name: "what is not an attribute", Dims: []int{len(ds), len(hs), len(bases), len(rivals), 2}, Run: func(d []int, t *T) string {
			r := plain(0)
			bases[d[2]](r)
			ds[d[0]].set(r)
			reps := []*Rep{r}
			if d[3] == 0 {
				if d[4] == 1 {
					return t.Skip()
				}
			} else {
				o := plain(1)
				rivals[d[3]](o)
				if d[4] == 0 {
					reps = append(reps, o)
				} else {
					reps = []*Rep{o, r}
				}
			}
			t.Step("disguise", hashStr(ds[d[0]].name), uint64(d[1]))
			return run(hs[d[1]], reps, t)
		}}}
	}
}

// queryNames and queryValues are parameters of resources by which other
// software selects representations.
var (
	queryNames  = []string{"format", "f", "fmt", "type", "mime", "media", "accept", "Accept", "_accept", "http_accept", "lang", "language", "l", "hl", "locale", "accept-language", "Accept-Language", "charset", "ie", "oe", "encoding", "accept-encoding", "negotiate", "Negotiate", "tcn", "version", "variant", "level", "output", "alt", "wt", "as", "_method", "method", "callback", "debug", "q", "nocache", "mobile", "features"}
	queryValues = []string{"json", "xml", "html", "yaml", "text", "txt", "text/html", "text/plain", "application/json", "fr", "de", "en", "utf-8", "iso-8859-1", "gzip", "identity", "1.0", "*", "trans", "vlist", "0", "1", "true", "HEAD", ""}
)

// resourceChanges change the part of the resource that never decides.
func resourceChanges() (out []change) {
	for _, n := range queryNames {
		for _, v := range queryValues {
			q := url.Values{n: {v}}
			out = append(out, change{name: "resource with ?" + q.Encode(), kinds: "ptr", req: func(r *http.Request) {
				x := *r.URL
				x.RawQuery = q.Encode()
				r.URL = &x
			}})
		}
	}
	for _, v := range queryValues {
		v := v
		for _, s := range []string{"r." + v, "r.en." + v, v, "r;" + v, "r#" + v} {
			x := url.URL{Scheme: "http", Host: "h.example", Path: "/a/" + strings.ReplaceAll(s, "/", "-")}
			out = append(out, change{name: "resource " + x.String(), kinds: "ptr", req: func(r *http.Request) {
				y := x
				y.Scheme, y.Host = r.URL.Scheme, r.URL.Host
				r.URL = &y
			}})
		}
	}
	return
}

func querySpaces(kinds string) func(tier string) []*Space {
	return func(tier string) []*Space {
		var ss []*scenario
		for _, s := range append(scenarios(), decided()...) {
			if strings.IndexByte(kinds, s.kind) >= 0 {
				ss = append(ss, s)
			}
		}
		cs := resourceChanges()
		part := 4
		if kinds != "ptr" {
			part = 11
		}
		if thorough(tier) {
			part = 1
		}
		return []*Space{{Name: "parameters of the resource", Dims: []int{len(ss), len(cs)}, Run: func(d []int, t *T) string {
			if (d[0]+d[1])%part != 0 {
				return t.Skip()
			}
			return changed(ss[d[0]], []change{cs[d[1]]}, t)
		}}}
	}
}

// manyLogs: the same negotiator responds a great many times.
func manyLogs(tier string) []*Space {
	ss := scenarios()
	n := 400
	if thorough(tier) {
		n = 2500
	}
	levels := []zapcore.Level{zapcore.DebugLevel, zapcore.InfoLevel}
	return []*Space{{Name: "many responses", Dims: []int{len(ss), len(levels)}, Run: func(d []int, t *T) string {
		core := &logCore{level: levels[d[1]]}
		s := ss[d[0]].logged(zap.New(core))
		t.Describe(func() any { return s.name })
		ng, e := s.build(noFaults(), nil)
		t.Outcome("many")
		for i := 0; i < n; i++ {
			core.records = nil
			rec, err := s.run(ng, e)
			t.Exec(1)
			t.Step("responses", uint64(i), hashStr(s.name))
			if m := logsTell(core, rec, err); m != "" {
				return fmt.Sprintf("%s, negotiation %d of %q", m, i+1, s.name)
			}
		}
		return ""
	}}}
}

// manyCounts: the same negotiator negotiates a great many times.
func manyCounts(tier string) []*Space {
	ss := scenarios()
	n := 700
	if thorough(tier) {
		n = 70000
	}
	return []*Space{{Name: "many negotiations", Dims: []int{len(ss)}, Run: func(d []int, t *T) string {
		s := ss[d[0]]
		t.Describe(func() any { return s.name })
		counts := func(n int) (map[string]int64, int) {
			scope := tally.NewTestScope("", nil)
			ng, e := s.build(noFaults(), scope)
			for i := 0; i < n; i++ {
				s.run(ng, e)
				t.Exec(1)
				t.Step("negotiations", uint64(i), hashStr(s.name))
			}
			c, timed := map[string]int64{}, 0
			for _, x := range scope.Snapshot().Counters() {
				c[x.Name()] += x.Value()
			}
			for _, x := range scope.Snapshot().Timers() {
				timed += len(x.Values())
			}
			return c, timed
		}
		one, timed := counts(1)
		many, times := counts(n)
		t.Outcome(fmt.Sprint(one))
		if times != n*timed {
			return fmt.Sprintf("%d times were recorded for %d negotiations", times, n)
		}
		for k, v := range one {
			if many[k] != int64(n)*v {
				return fmt.Sprintf("%s is %d after a negotiation, and %d after %d", k, v, many[k], n)
			}
		}
		for k, v := range many {
			if v != 0 && one[k] == 0 {
				return fmt.Sprintf("%s is %d after many negotiations, and not counted for one", k, v)
			}
		}
		return ""
	}}}
}

// hostSpaces: hosts that resemble each other.
func hostSpaces(tier string) []*Space {
	hosts := []string{"h.example", "www.h.example", "www.www.h.example", "m.h.example", "cdn.h.example", "static.h.example", "hh.example", "h.example.com", "hexample", "h-example", "h_example", "h.examples", "h.exampl", "example", "h", "www", "www.",
		"localhost", "127.0.0.1", "127.0.0.2", "10.0.0.1", "[::1]", "[::2]", "[fe80::1]", "xn--hxample-9ua.example", "h%C3%A9.example", "h.example:81", "h.example:8", "h.example:180", "h.example:808", "h.example:44", "h.example:4430", "h.example:443", "h.example:80", "H.EXAMPLE", "WWW.h.example", "h..example"}
	schemes := []string{"http", "https"}
	paths := [][2]string{{"/a/r", "/a/v"}, {"/r", "/v"}, {"/", "/v"}, {"/a/r", "/b/v"}}
	return []*Space{{Name: "hosts that resemble each other", Dims: []int{len(hosts), len(hosts), 2, 2, len(paths)}, Run: func(d []int, t *T) string {
		res, err := url.Parse(schemes[d[2]] + "://" + hosts[d[0]] + paths[d[4]][0])
		must(err)
		loc, err := url.Parse(schemes[d[3]] + "://" + hosts[d[1]] + paths[d[4]][1])
		must(err)
		port := func(u *url.URL) string {
			if p := u.Port(); p != "" {
				return p
			}
			return map[string]string{"http": "80", "https": "443"}[u.Scheme]
		}
		near := d[2] == d[3] && strings.EqualFold(res.Hostname(), loc.Hostname()) && port(res) == port(loc) && d[4] != 3
		return neighbors(res, loc, near, t)
	}}}
}

func neighbors(res, loc *url.URL, near bool, t *T) string {
	r := plain(0)
	r.CT, r.Loc = "text/html", *loc
	reps := []*Rep{r}
	hh := http.Header{"Negotiate": {"1.0"}, "Accept": {"text/html"}}
	t.Describe(func() any {
		return map[string]any{"resource": res.String(), "variant": loc.String(), "neighbors": near}
	})
	t.Step("neighbors", hashStr(res.String()), hashStr(loc.String()))
	t.Outcome(fmt.Sprint("neighbors: ", near))
	u := *res
	rec, err := negotiate(transparent.Default, request(hh, &u), false, asReps(reps)...)
	t.Exec(1)
	want := none
	if near {
		want = 0
	}
	return tcnResponse(rec, err, reps, want, nil)
}

// readerKinds are ways in which readers may deliver what they read.
var readerKinds = []struct {
	name string
	mk   func(r io.Reader) io.Reader
}{
	{"plain", func(r io.Reader) io.Reader { return r }},
	{"one byte at a time", iotest.OneByteReader},
	{"half of what is asked for", iotest.HalfReader},
	{"data together with the end", withEnd},
	{"nothing at times", func(r io.Reader) io.Reader { return &pausing{r: r, every: 2} }},
	{"nothing first", func(r io.Reader) io.Reader { return &pausing{r: r, every: 1 << 30, first: 3} }},
	{"nothing twice at times", func(r io.Reader) io.Reader { return &pausing{r: r, every: 3, first: 2} }},
	{"one byte, the last with the end", func(r io.Reader) io.Reader { return withEnd(iotest.OneByteReader(r)) }},
	{"everything read first", func(r io.Reader) io.Reader { return &late{r: r} }},
}

// withEnd delivers the last data together with the end of it.
func withEnd(r io.Reader) io.Reader { return &ending{r: bufio.NewReader(r)} }

type ending struct{ r *bufio.Reader }

func (e *ending) Read(b []byte) (int, error) {
	n, err := e.r.Read(b)
	if err == nil {
		if _, end := e.r.Peek(1); end == io.EOF {
			err = io.EOF
		}
	}
	return n, err
}

// pausing is a reader that at times reads nothing, without an error.
type pausing struct {
	r               io.Reader
	every, n, first int
}

func (p *pausing) Read(b []byte) (int, error) {
	p.n++
	if p.n <= p.first || p.n%p.every == 0 {
		return 0, nil
	}
	if len(b) > 7 {
		b = b[:7]
	}
	return p.r.Read(b)
}

// late reads everything ahead of delivering anything.
type late struct {
	r   io.Reader
	buf *bytes.Reader
}

func (l *late) Read(b []byte) (int, error) {
	if l.buf == nil {
		c, err := io.ReadAll(l.r)
		if err != nil {
			return 0, err
		}
		l.buf = bytes.NewReader(c)
	}
	return l.buf.Read(b)
}

// writerKinds are ways in which writers may pass on what is written.
var writerKinds = []struct {
	name string
	mk   func(w io.WriteCloser) io.WriteCloser
}{
	{"plain", func(w io.WriteCloser) io.WriteCloser { return &passing{w: w, size: 1 << 30} }},
	{"one byte at a time", func(w io.WriteCloser) io.WriteCloser { return &passing{w: w, size: 1} }},
	{"in pieces, empty ones in between", func(w io.WriteCloser) io.WriteCloser { return &passing{w: w, size: 5, empty: true} }},
	{"when closed", func(w io.WriteCloser) io.WriteCloser { return &passing{w: w, size: 1 << 30, late: true} }},
	{"in pieces when closed", func(w io.WriteCloser) io.WriteCloser { return &passing{w: w, size: 3, late: true} }},
}

// passing passes on what is written; it changes the slices that it is given
// no more than io.Writer permits.
type passing struct {
	w           io.WriteCloser
	size        int
	empty, late bool
	buf         []byte
}

func (p *passing) Write(b []byte) (int, error) {
	if p.late {
		p.buf = append(p.buf, b...)
		return len(b), nil
	}
	return len(b), p.pass(b)
}

func (p *passing) pass(b []byte) error {
	scratch := make([]byte, 0, 16)
	for len(b) > 0 {
		n := p.size
		if n > len(b) {
			n = len(b)
		}
		// writers have to copy what they keep.
		scratch = append(scratch[:0], b[:n]...)
		if _, err := p.w.Write(scratch); err != nil {
			return err
		}
		for i := range scratch {
			scratch[i] = '#'
		}
		if p.empty {
			if _, err := p.w.Write(nil); err != nil {
				return err
			}
		}
		b = b[n:]
	}
	return nil
}

func (p *passing) Close() error {
	if p.late {
		return p.pass(p.buf)
	}
	return nil
}

// raw is a representation of bytes.
type raw struct {
	representation.Base
	content []byte
}

// refReader and refWriter are the codings of the standard library.
func refReader(coding string, r io.Reader) (io.ReadCloser, error) {
	switch kindOf(coding) {
	case 'g':
		return gzip.NewReader(r)
	case 'z':
		return zlib.NewReader(r)
	}
	return flate.NewReader(r), nil
}

func refWriter(coding string, w io.Writer) (io.WriteCloser, error) {
	switch kindOf(coding) {
	case 'g':
		return gzip.NewWriterLevel(w, gzip.BestSpeed)
	case 'z':
		return zlib.NewWriterLevel(w, zlib.BestSpeed)
	}
	return flate.NewWriter(w, flate.BestSpeed)
}

func deliverySpaces(tier string) []*Space {
	sizes := []int{0, 1, 2, 3, 7, 8, 20, 100, 511, 512, 513, 1024, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65536}
	stacks := [][]string{{"own"}, {"own", "gzip"}, {"gzip", "own"}, {"own", "own"}, {"own", "identity"}, {"deflate", "own"}, {"own", "compress", "own"}, {"own", "gzip", "deflate"}}
	std := map[string]bool{"gzip": true, "compress": true, "deflate": true}
	build := func(rk, wk int) *raw {
		x := &raw{}
		x.SetContentType("application/octets")
		x.SetMarshallers(map[string]representation.Marshaller{"application/octets": func(v interface{}) ([]byte, error) { return v.(*raw).content, nil }})
		x.SetUnmarshallers(map[string]representation.Unmarshaller{"application/octets": func(b []byte, v interface{}) error {
			v.(*raw).content = append([]byte{}, b...)
			return nil
		}})
		rs := map[string]representation.EncodingReaderConstructor{"own": func(r io.Reader) (io.ReadCloser, error) {
			return io.NopCloser(readerKinds[rk].mk(r)), nil
		}}
		ws := map[string]representation.EncodingWriterConstructor{"own": func(w io.WriteCloser) (io.WriteCloser, error) {
			return writerKinds[wk].mk(w), nil
		}}
		for c := range std {
			c := c
			rs[c] = func(r io.Reader) (io.ReadCloser, error) { return refReader(c, r) }
			ws[c] = func(w io.WriteCloser) (io.WriteCloser, error) { return refWriter(c, w) }
		}
		x.SetEncodingReaders(rs)
		x.SetEncodingWriters(ws)
		return x
	}
	return []*Space{{Name: "ways of reading and writing", Dims: []int{len(readerKinds), len(writerKinds), len(stacks), len(sizes)}, Run: func(d []int, t *T) string {
		content := []byte(noise(sizes[d[3]]))
		var known []string
		for _, c := range stacks[d[2]] {
			if std[c] {
				known = append(known, c)
			}
		}
		x := build(d[0], d[1])
		x.SetContentEncoding(stacks[d[2]])
		x.content = content
		t.Describe(func() any {
			return map[string]any{"reader": readerKinds[d[0]].name, "writer": writerKinds[d[1]].name, "codings": stacks[d[2]], "size": len(content)}
		})
		t.Step("delivery", uint64(d[0]), uint64(d[1]), uint64(d[2]), uint64(d[3]))
		t.Exec(2)
		t.Outcome("round trip")
		b, err := x.Base.Bytes(x)
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		// the own coding changes nothing.
		p, err := decodeRef(known, b)
		if err != nil || !bytes.Equal(p, content) {
			return fmt.Sprintf("the %d bytes written do not hold the content (%v)", len(b), err)
		}
		y := build(d[0], d[1])
		y.SetContentEncoding(stacks[d[2]])
		if err := y.Base.FromBytes(encodeRef(known, content), y); err != nil {
			return fmt.Sprintf("unexpected error %q when reading", err)
		}
		if !bytes.Equal(y.content, content) {
			return fmt.Sprintf("read %d bytes of %d", len(y.content), len(content))
		}
		return ""
	}}}
}

// nestedSpaces: while the calls of its environment last, a negotiation has
// another one performed.
func nestedSpaces(tier string) []*Space {
	ss := scenarios()
	hooks := []string{"rep", "list", "Choose", "Write"}
	return []*Space{{Name: "negotiations within negotiations", Dims: []int{len(ss), len(ss), len(hooks)}, Run: func(d []int, t *T) string {
		outer, inner := ss[d[0]], ss[d[1]]
		t.Describe(func() any { return []string{outer.name, inner.name, hooks[d[2]]} })
		alone := func(s *scenario) string {
			n, e := s.build(noFaults(), nil)
			rec, err := s.run(n, e)
			return rec.render() + fmt.Sprint(err)
		}
		wantOuter, wantInner := alone(outer), alone(inner)
		var got []string
		f := noFaults()
		n, e := outer.build(f, nil)
		in, ie := inner.build(noFaults(), nil)
		busy := false
		f.hook = func(call string) {
			if !busy && strings.HasPrefix(call, hooks[d[2]]) && len(got) < 3 {
				busy = true
				rec, err := inner.run(in, ie)
				got = append(got, rec.render()+fmt.Sprint(err))
				busy = false
			}
		}
		rec, err := outer.run(n, e)
		t.Exec(3 + len(got))
		t.Step("nested", hashStr(outer.name), hashStr(inner.name), uint64(d[2]))
		t.Outcome(fmt.Sprint("nested: ", len(got)))
		for _, g := range got {
			if g != wantInner {
				return fmt.Sprintf("the inner negotiation is answered %s instead of %s", g, wantInner)
			}
		}
		if g := rec.render() + fmt.Sprint(err); g != wantOuter {
			return fmt.Sprintf("the outer negotiation is answered %s instead of %s", g, wantOuter)
		}
		return ""
	}}}
}

func init() {
	p := negotiator.Negotiator(proactive.New(proactive.DisableNotAcceptableRepresentation()))
	extend("P01", disguiseSpaces(func(h Headers, reps []*Rep, t *T) string { return acceptability(p, h, reps, t) }))
	extend("P02", disguiseSpaces(func(h Headers, reps []*Rep, t *T) string { return bestChoice(p, h, reps, thousands(len(reps)), t) }))
	extend("T02", disguiseSpaces(func(h Headers, reps []*Rep, t *T) string {
		var vs []*variant
		for _, r := range reps {
			if len(r.CF) > 0 || len(h.Enc) > 0 {
				return t.Skip()
			}
			vs = append(vs, &variant{Rep: r, sq: 1000})
		}
		return rvsaCase(h, nil, vs, t)
	}))
	for id, k := range map[string]string{"I01": "ptr", "P01": "p", "P04": "p", "T01": "t", "R01": "r"} {
		extend(id, querySpaces(k))
	}
	extend("M01", manyLogs)
	extend("P08", manyCounts)
	extend("T05", hostSpaces)
	extend("S04", deliverySpaces)
	extend("P10", nestedSpaces)
}

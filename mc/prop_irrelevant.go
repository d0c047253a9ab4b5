package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"mime/multipart"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/freerware/negotiator"
)

// change is one that no negotiation of the kinds depends on.
type change struct {
	name  string
	kinds string // of negotiators, see scenario
	req   func(r *http.Request)
	ctx   func(c *negotiator.NegotiationContext)
	// keep are response headers that have to survive.
	keep http.Header
}

// poison is a request body that nobody may touch.
type poison struct{ touched *string }

func (p poison) Read([]byte) (int, error) {
	*p.touched = "read"
	return 0, errors.New("poison")
}
func (p poison) Close() error {
	*p.touched = "closed"
	return nil
}

// rich is a response writer with the optional interfaces.
type rich struct {
	*Recorder
	used *string
}

func (r rich) Flush() {}
func (r rich) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	*r.used = "hijacked"
	return nil, nil, errors.New("hijacked")
}
func (r rich) WriteString(s string) (int, error) { return r.Recorder.Write([]byte(s)) }
func (r rich) ReadFrom(src io.Reader) (int64, error) {
	b, err := io.ReadAll(src)
	if err != nil {
		return 0, err
	}
	n, err := r.Recorder.Write(b)
	return int64(n), err
}
func (r rich) Unwrap() http.ResponseWriter { return r.Recorder }

type ctxKey struct{}

func irrelevantChanges() (out []change) {
	add := func(name, kinds string, f func(r *http.Request)) {
		out = append(out, change{name: name, kinds: kinds, req: f})
	}
	add("no change", "ptr", func(r *http.Request) {})
	for _, m := range []string{"HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "CONNECT", "TRACE", "", "get", "PROPFIND"} {
		m := m
		add("method "+m, "ptr", func(r *http.Request) { r.Method = m })
	}
	for _, p := range []struct {
		s    string
		a, b int
	}{{"HTTP/1.0", 1, 0}, {"HTTP/0.9", 0, 9}, {"HTTP/2.0", 2, 0}, {"", 0, 0}} {
		p := p
		add("protocol "+p.s, "ptr", func(r *http.Request) { r.Proto, r.ProtoMajor, r.ProtoMinor = p.s, p.a, p.b })
	}
	for _, kv := range []string{
		"Accept-Ranges: bytes", "Accept-Datetime: Thu, 31 May 2007 20:35:00 GMT", "Accept-Patch: text/html", "Accept-Post: text/html", "Accept-Signature: x",
		"Te: trailers, gzip;q=0.5", "Range: bytes=0-1", "If-Range: x", "If-None-Match: *", "If-Match: x", "If-Modified-Since: Thu, 31 May 2007 20:35:00 GMT",
		"Content-Type: application/json", "Content-Language: fr", "Content-Encoding: gzip", "Content-Length: 5", "Content-Location: /x", "Content-Charset: x",
		"Transfer-Encoding: chunked", "Expect: 100-continue", "Connection: close", "Upgrade: h2c", "Host: other.example", "X-Http-Method-Override: HEAD",
		"X-Forwarded-Host: other.example", "X-Forwarded-Proto: https", "X-Original-Url: /x", "Forwarded: host=other.example", "X-Accept: text/plain", "X-Negotiate: vlist",
		"User-Agent: Mozilla/4.0 (compatible; MSIE 6.0)", "Cookie: lang=fr; Accept=text/plain", "Authorization: Basic x", "Cache-Control: no-cache, no-transform", "Pragma: no-cache",
		"Prefer: return=minimal", "Referer: http://h.example/a/v1", "Origin: http://other.example", "Dnt: 1", "Save-Data: on", "Vary: Accept", "Alternates: {\"x\" 1}", "Tcn: list", "Variant-Vary: x", "Link: </x>",
	} {
		k, v, _ := strings.Cut(kv, ": ")
		add(kv, "ptr", func(r *http.Request) { r.Header[k] = []string{v} })
	}
	for _, kv := range []string{"Negotiate: vlist", "Negotiate: nonsense;;", "Negotiate: *", "Accept-Features: tables, !x", "Accept-Features: [["} {
		k, v, _ := strings.Cut(kv, ": ")
		add(kv, "pr", func(r *http.Request) { r.Header[k] = []string{v} })
	}
	for _, kv := range []string{"Accept: text/plain", "Accept: ", "Accept: a;;", "Accept: */*;q=0", "Accept: application/xml", "Accept-Language: de", "Accept-Language: !", "Accept-Language: *;q=0", "Accept-Charset: utf-16", "Accept-Charset: *;q=0",
		"Accept-Charset: x;q=7", "Accept-Encoding: gzip", "Accept-Encoding: *;q=0", "Accept-Encoding: x;q=-1"} {
		k, v, _ := strings.Cut(kv, ": ")
		add("reactive "+kv, "r", func(r *http.Request) { r.Header[k] = []string{v} })
	}
	for _, v := range []string{"gzip", "*;q=0", "identity;q=0", "x;q=7", ""} {
		v := v
		add("Accept-Encoding: "+v, "t", func(r *http.Request) { r.Header["Accept-Encoding"] = []string{v} })
	}
	cancelled, cancel := context.WithCancel(context.Background())
	cancel()
	expired, cancel2 := context.WithDeadline(context.Background(), time.Unix(0, 0))
	_ = cancel2
	for _, c := range []struct {
		n string
		c context.Context
	}{{"cancelled context", cancelled}, {"expired context", expired}, {"context with values", context.WithValue(context.Background(), ctxKey{}, "x")}} {
		c := c
		add(c.n, "ptr", func(r *http.Request) { *r = *r.WithContext(c.c) })
	}
	add("form", "ptr", func(r *http.Request) {
		r.Form, r.PostForm = url.Values{"Accept": {"text/plain"}}, url.Values{"lang": {"fr"}}
	})
	for _, x := range []string{"other.example", "", "H.EXAMPLE:80", "h.example:443"} {
		x := x
		add("host "+x, "ptr", func(r *http.Request) { r.Host = x })
	}
	add("tls", "ptr", func(r *http.Request) { r.TLS = &tls.ConnectionState{HandshakeComplete: true, ServerName: "h.example"} })
	add("remote address", "ptr", func(r *http.Request) { r.RemoteAddr, r.RequestURI = "10.0.0.1:5", "/somewhere/else" })
	add("path values", "ptr", func(r *http.Request) {
		r.SetPathValue("name", "v1")
	})
	add("close", "ptr", func(r *http.Request) { r.Close, r.ContentLength, r.TransferEncoding = true, -1, []string{"chunked"} })
	for _, n := range []int64{-1, 0, 1, 5, 1 << 40} {
		n := n
		add(fmt.Sprintf("content length %d", n), "ptr", func(r *http.Request) { r.ContentLength = n })
	}
	for _, te := range []string{"chunked", "identity", "gzip"} {
		te := te
		add("transfer encoding "+te, "ptr", func(r *http.Request) { r.TransferEncoding = []string{te} })
	}
	add("connection ends", "ptr", func(r *http.Request) { r.Close = true })
	add("no request line", "ptr", func(r *http.Request) { r.RequestURI = "" })
	for _, u := range []string{"/somewhere/else", "http://other.example/a/r", "*", "other.example:443"} {
		u := u
		add("request line "+u, "ptr", func(r *http.Request) { r.RequestURI = u })
	}
	add("multipart form", "ptr", func(r *http.Request) {
		r.MultipartForm = &multipart.Form{Value: map[string][]string{"Accept": {"text/plain"}}}
	})
	add("redirected", "ptr", func(r *http.Request) {
		r.Response = &http.Response{StatusCode: 302, Header: http.Header{"Content-Type": {"text/plain"}}}
	})
	add("body can be had again", "ptr", func(r *http.Request) {
		r.GetBody = func() (io.ReadCloser, error) { return nil, errors.New("no body") }
	})
	add("trailer", "ptr", func(r *http.Request) { r.Trailer = http.Header{"Accept": {"text/plain"}} })
	add("empty body", "ptr", func(r *http.Request) { r.Body = http.NoBody })
	for _, s := range []string{"?q=1", "?Accept=text/plain&lang=fr", "?", "#f", "?x#f"} {
		s := s
		add("resource with "+s, "ptr", func(r *http.Request) {
			x := mustURL(r.URL.String() + s)
			r.URL = &x
		})
	}
	add("other name in the same directory", "ptr", func(r *http.Request) {
		x := *r.URL
		x.Path = "/a/other.html.fr"
		r.URL = &x
	})
	for _, s := range []string{"https://other.example/", "/", "//x/y/z", "*", "", "mailto:x@h.example", "http://h.example/a/r.json", "/a/b/c/d.en.html?x=1"} {
		x := mustURL(s)
		add("resource "+s, "pr", func(r *http.Request) { r.URL = &x })
	}
	out = append(out, change{name: "creation", kinds: "tr", req: func(*http.Request) {}, ctx: func(c *negotiator.NegotiationContext) { c.IsCreation = !c.IsCreation }})
	for _, keep := range []http.Header{{"X-Request-Id": {"1", "2"}}, {"Set-Cookie": {"a=b", "c=d"}}, {"Vary": {"Cookie"}, "Etag": {`"x"`}}, {"Cache-Control": {"no-store"}, "Link": {"</x>"}}, {"Date": {"x"}, "Server": {"y"}}} {
		keep := keep
		out = append(out, change{name: fmt.Sprintf("response with %v", keep), kinds: "ptr", req: func(*http.Request) {}, keep: keep})
	}
	return
}

// usual is the answer to a scenario without changes.
type usual struct{ response, err, calls string }

var usuals sync.Map

func (s *scenario) usual() usual {
	if u, ok := usuals.Load(s); ok {
		return u.(usual)
	}
	n, e := s.build(noFaults(), nil)
	rec, err := s.run(n, e)
	u := usual{rec.render(), fmt.Sprint(err), fmt.Sprint(e.f.calls)}
	usuals.Store(s, u)
	return u
}

// changed runs the scenario with the changes, and tells what differs from the
// response without them.
func changed(s *scenario, cs []change, t *T) string {
	var names []string
	h := hashStr(s.name)
	for _, c := range cs {
		names = append(names, c.name)
		h = mix(h, hashStr(c.name))
		if strings.IndexByte(c.kinds, s.kind) < 0 {
			return t.Skip()
		}
	}
	t.Describe(func() any { return map[string]any{"scenario": s.name, "changes": names} })
	q := s.usual()
	n, e := s.build(noFaults(), nil)
	rec := newRecorder()
	rec.fail = func() error { return e.f.call("Write") }
	touched := ""
	req := s.request()
	if req.Header == nil {
		req.Header = http.Header{}
	}
	req.Body = poison{&touched}
	ctx := negotiator.NegotiationContext{ResponseWriter: rich{rec, &touched}, Request: req, IsCreation: s.creation}
	for _, c := range cs {
		c.req(req)
		if c.ctx != nil {
			c.ctx(&ctx)
		}
		for k, v := range c.keep {
			rec.header[k] = append([]string{}, v...)
		}
	}
	before := fmt.Sprint(req.Header)
	err := n.Negotiate(ctx, asReps(e.reps)...)
	t.Exec(1)
	t.Outcome(fmt.Sprintf("%c %d", s.kind, rec.status()))
	t.Step("changed", h)
	if fmt.Sprint(err) != q.err {
		return fmt.Sprintf("error %v with %q, %v without", err, names, q.err)
	}
	if touched != "" {
		return fmt.Sprintf("the body of the request or the connection was %s", touched)
	}
	if fmt.Sprint(req.Header) != before {
		return "the header of the request was changed"
	}
	for _, c := range cs {
		for k, v := range c.keep {
			if err == nil && fmt.Sprint(rec.snapshot[k]) != fmt.Sprint(v) {
				return fmt.Sprintf("response header %s is %q, the server had set %q", k, rec.snapshot[k], v)
			}
			delete(rec.snapshot, k)
		}
	}
	if a, b := rec.render(), q.response; a != b {
		return fmt.Sprintf("response %s with %q, %s without", a, names, b)
	}
	if a, b := fmt.Sprint(e.f.calls), q.calls; a != b {
		return fmt.Sprintf("calls %s with %q, %s without", a, names, b)
	}
	return ""
}

// pipeListener accepts in-memory connections.
type pipeListener struct{ conns chan net.Conn }

func (l *pipeListener) Accept() (net.Conn, error) {
	c, ok := <-l.conns
	if !ok {
		return nil, io.EOF
	}
	return c, nil
}
func (l *pipeListener) Close() error   { return nil }
func (l *pipeListener) Addr() net.Addr { return &net.TCPAddr{} }

// wire is a real HTTP server whose requests select the scenario.
type wire struct {
	l     *pipeListener
	mu    sync.Mutex
	jobs  map[string]*wireJob
	count int
}

type wireJob struct {
	n   negotiator.Negotiator
	e   *env
	s   *scenario
	err error
}

func newWire() *wire {
	w := &wire{l: &pipeListener{make(chan net.Conn)}, jobs: map[string]*wireJob{}}
	srv := &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		w.mu.Lock()
		j := w.jobs[r.Header.Get("X-Job")]
		w.mu.Unlock()
		j.err = j.n.Negotiate(negotiator.NegotiationContext{ResponseWriter: rw, Request: r, IsCreation: j.s.creation}, asReps(j.e.reps)...)
		if j.err != nil {
			rw.WriteHeader(599)
		}
	})}
	go func() { _ = srv.Serve(w.l) }()
	return w
}

var spell = []func(string) string{func(s string) string { return s }, strings.ToLower, strings.ToUpper}

// exchange sends the scenarios on one connection, and compares the responses
// that arrive with the ones that the negotiator gives when called directly.
func (w *wire) exchange(ss []*scenario, method, proto string, absolute bool, keys int, t *T) string {
	var names []string
	t.Describe(func() any {
		return map[string]any{"scenarios": names, "method": method, "protocol": proto, "absolute": absolute}
	})
	h := hashStr(method + proto)
	client, server := net.Pipe()
	defer client.Close()
	w.l.conns <- server
	_ = client.SetDeadline(time.Now().Add(60 * time.Second))
	br := bufio.NewReader(client)
	for _, s := range ss {
		names = append(names, s.name)
		h = mix(mix(h, hashStr(s.name)), uint64(2*keys)+boolBit(absolute))
		rs := s
		if !absolute {
			rs = s.relativeTo()
		}
		target := "/a/r"
		u := &url.URL{Path: "/a/r"}
		if absolute {
			target, u = "http://h.example/a/r", nil
		}
		// the direct call.
		dn, de := rs.build(noFaults(), nil)
		want := newRecorder()
		werr := dn.Negotiate(negotiator.NegotiationContext{ResponseWriter: want, Request: request(rs.header.Clone(), u), IsCreation: rs.creation}, asReps(de.reps)...)
		// the same through the server.
		n, e := rs.build(noFaults(), nil)
		job := &wireJob{n: n, e: e, s: rs}
		w.mu.Lock()
		w.count++
		id := fmt.Sprint(w.count)
		w.jobs[id] = job
		w.mu.Unlock()
		var sb strings.Builder
		fmt.Fprintf(&sb, "%s %s %s\r\nHost: h.example\r\nX-Job: %s\r\n", method, target, proto, id)
		if proto == "HTTP/1.0" {
			sb.WriteString("Connection: keep-alive\r\n")
		}
		for k, vs := range rs.header {
			for _, v := range vs {
				fmt.Fprintf(&sb, "%s: %s\r\n", spell[keys](k), v)
			}
		}
		switch {
		case method != "POST":
			sb.WriteString("\r\n")
		case proto == "HTTP/1.0" || keys == 1:
			sb.WriteString("Content-Length: 3\r\n\r\nabc")
		default:
			sb.WriteString("Transfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n")
		}
		if _, err := io.WriteString(client, sb.String()); err != nil {
			return fmt.Sprintf("the connection broke: %s", err)
		}
		resp, err := http.ReadResponse(br, &http.Request{Method: method})
		if err != nil {
			return fmt.Sprintf("the response cannot be read: %s", err)
		}
		body, err := io.ReadAll(resp.Body)
		if err != nil {
			return fmt.Sprintf("the body cannot be read: %s", err)
		}
		resp.Body.Close()
		w.mu.Lock()
		delete(w.jobs, id)
		w.mu.Unlock()
		t.Exec(2)
		t.Step("wire", h)
		t.Outcome(fmt.Sprintf("wire %d", resp.StatusCode))
		if fmt.Sprint(job.err) != fmt.Sprint(werr) {
			return fmt.Sprintf("error %v through the server, %v when called", job.err, werr)
		}
		if werr != nil {
			if resp.StatusCode != 599 {
				return fmt.Sprintf("status %d of a failed negotiation", resp.StatusCode)
			}
			continue
		}
		if resp.StatusCode != want.status() {
			return fmt.Sprintf("status %d through the server, %d when called", resp.StatusCode, want.status())
		}
		for k := range want.snapshot {
			if resp.Header.Get(k) != want.snapshot.Get(k) {
				return fmt.Sprintf("%s %q through the server, %q when called", k, resp.Header.Get(k), want.snapshot.Get(k))
			}
		}
		wb := want.body
		if method == "HEAD" {
			wb = nil
		}
		if !bytes.Equal(body, wb) {
			return fmt.Sprintf("body %q through the server, %q when called", body, wb)
		}
	}
	return ""
}

func init() {
	register(&Prop{
		ID:   "I01",
		Rule: "every scenario of every negotiator with every single and every pair of changes to parts of the request, the context and the response writer that no negotiation depends on, differential against the response without them; and every scenario and pair of scenarios through a real HTTP server over an in-memory connection",
		Spaces: func(tier string) []*Space {
			ss, cs := everyScenario(), irrelevantChanges()
			base := scenarios()
			w := newWire()
			methods := []string{"GET", "HEAD", "POST", "DELETE"}
			protos := []string{"HTTP/1.1", "HTTP/1.0"}
			out := []*Space{
				{Name: "one change", Dims: []int{len(ss), len(cs)}, Run: func(d []int, t *T) string {
					return changed(ss[d[0]], []change{cs[d[1]]}, t)
				}},
				{Name: "two changes", Dims: []int{len(ss), len(cs), len(cs)}, Run: func(d []int, t *T) string {
					if d[1] == 0 || d[2] == 0 || d[1] == d[2] {
						return t.Skip()
					}
					return changed(ss[d[0]], []change{cs[d[1]], cs[d[2]]}, t)
				}},
				{Name: "real server, one request", Dims: []int{len(base), len(methods), len(protos), 2, len(spell)}, Run: func(d []int, t *T) string {
					return w.exchange([]*scenario{base[d[0]]}, methods[d[1]], protos[d[2]], d[3] == 1, d[4], t)
				}},
				{Name: "real server, two requests on a connection", Dims: []int{len(base), len(base), 2}, Run: func(d []int, t *T) string {
					return w.exchange([]*scenario{base[d[0]], base[d[1]]}, methods[d[2]], protos[0], true, 0, t)
				}},
			}
			if thorough(tier) {
				var some []change
				for i, c := range cs {
					if i%3 == 1 {
						some = append(some, c)
					}
				}
				out = append(out, &Space{Name: "three changes", Dims: []int{len(ss), len(some), len(some), len(some)}, Run: func(d []int, t *T) string {
					if d[1] >= d[2] || d[2] >= d[3] {
						return t.Skip()
					}
					return changed(ss[d[0]], []change{some[d[1]], some[d[2]], some[d[3]]}, t)
				}}, &Space{Name: "real server, three requests on a connection", Dims: []int{len(base), len(base), len(base)}, Run: func(d []int, t *T) string {
					return w.exchange([]*scenario{base[d[0]], base[d[1]], base[d[2]]}, "GET", protos[0], true, 0, t)
				}})
			}
			return out
		},
	})
}

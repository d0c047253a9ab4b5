package main

import (
	"bytes"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/representation"
)

// Rep is a representation with fixed bytes. It is the environment of the
// negotiators: every call the implementation makes can be observed and failed.
type Rep struct {
	CT, CL, CC string
	CE         []string
	CF         []string
	Loc        url.URL
	SQ         float32
	Body       []byte
	ID         int

	onBytes func(r *Rep) ([]byte, error)
}

func (r *Rep) ContentLocation() url.URL  { return r.Loc }
func (r *Rep) ContentType() string       { return r.CT }
func (r *Rep) ContentEncoding() []string { return r.CE }
func (r *Rep) ContentCharset() string    { return r.CC }
func (r *Rep) ContentLanguage() string   { return r.CL }
func (r *Rep) ContentFeatures() []string { return r.CF }
func (r *Rep) SourceQuality() float32    { return r.SQ }
func (r *Rep) FromBytes(b []byte) error  { return errors.New("not implemented") }
func (r *Rep) Bytes() ([]byte, error) {
	if r.onBytes != nil {
		return r.onBytes(r)
	}
	return r.Body, nil
}

func (r *Rep) String() string {
	return fmt.Sprintf("{#%d type=%q lang=%q charset=%q coding=%q features=%q loc=%q sq=%g len=%d}",
		r.ID, r.CT, r.CL, r.CC, r.CE, r.CF, r.Loc.String(), r.SQ, len(r.Body))
}

// Recorder is the response writer. It enforces the http.ResponseWriter
// protocol by recording every call.
type Recorder struct {
	header   http.Header
	snapshot http.Header
	statuses []int
	body     []byte
	writes   int
	// calls is the order of the calls: h(eader write), w(rite).
	calls    []byte
	fail     func() error
	creation bool
	// short is the number of bytes accepted by a failing write.
	short int
}

func newRecorder() *Recorder { return &Recorder{header: http.Header{}} }

func (r *Recorder) Header() http.Header { return r.header }

func (r *Recorder) WriteHeader(s int) {
	if len(r.statuses) == 0 {
		r.snapshot = r.header.Clone()
	}
	r.statuses = append(r.statuses, s)
	r.calls = append(r.calls, 'h')
}

func (r *Recorder) Write(b []byte) (int, error) {
	if len(r.statuses) == 0 && r.snapshot == nil {
		r.snapshot = r.header.Clone()
	}
	r.writes++
	r.calls = append(r.calls, 'w')
	if r.fail != nil {
		if err := r.fail(); err != nil {
			n := r.short
			if n > len(b) {
				n = len(b)
			}
			r.body = append(r.body, b[:n]...)
			return n, err
		}
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

func (r *Recorder) status() int {
	if len(r.statuses) == 0 {
		if r.writes > 0 {
			return 200
		}
		return 0
	}
	return r.statuses[0]
}

// okStatus is the status of a proactive choice.
func (r *Recorder) okStatus() int {
	if r.creation {
		return http.StatusCreated
	}
	return http.StatusOK
}

// untouched tells whether nothing has been sent.
func (r *Recorder) untouched() bool { return len(r.calls) == 0 }

func (r *Recorder) get(k string) string { return r.snapshot.Get(k) }

// render is the complete observable response in canonical form.
func (r *Recorder) render() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v %s|", r.statuses, r.calls)
	var ks []string
	for k := range r.snapshot {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%q|", k, r.snapshot[k])
	}
	sb.Write(r.body)
	return sb.String()
}

type chooserFunc func(*http.Request, ...representation.Representation) (representation.Representation, error)

func (f chooserFunc) Choose(r *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	return f(r, reps...)
}

var reqURL = url.URL{Scheme: "http", Host: "h.example", Path: "/a/r"}

// request builds the request without any parsing.
func request(h http.Header, u *url.URL) *http.Request {
	if u == nil {
		c := reqURL
		u = &c
	}
	x := rotation(h)
	r := &http.Request{Method: methods[x%uint64(len(methods))], URL: u, Header: h, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: u.Host}
	x /= uint64(len(methods))
	switch x % 4 {
	case 1:
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.0", 1, 0
		r.ContentLength = 17
	case 2:
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
		r.ContentLength = -1
	case 3:
		r.RemoteAddr, r.RequestURI = "10.0.0.1:5", u.RequestURI()
	}
	return r
}

// methods of the requests. No negotiation depends on the method, so that it
// rotates with the header instead of being a dimension (which it is in I01).
var methods = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "PROPFIND", ""}

func rotation(h http.Header) (x uint64) {
	for k, vs := range h {
		y := hashStr(k)
		for _, v := range vs {
			y = mix(y, hashStr(v))
		}
		x ^= y
	}
	return mix(x, 1)
}

// negotiateAny negotiates with a creation or without, which only the status
// of a proactive choice depends on.
func negotiateAny(n negotiator.Negotiator, h http.Header, reps []*Rep) (*Recorder, error) {
	x := rotation(h)
	for _, r := range reps {
		x = mix(x, hashStr(r.CT)+hashStr(r.CC))
	}
	creation := x&4 != 0
	rec, err := negotiate(n, request(h, nil), creation, asReps(reps)...)
	rec.creation = creation
	return rec, err
}

func asReps(rs []*Rep) []representation.Representation {
	out := make([]representation.Representation, len(rs))
	for i, r := range rs {
		out[i] = r
	}
	return out
}

// negotiate runs one negotiation.
func negotiate(n negotiator.Negotiator, req *http.Request, creation bool, reps ...representation.Representation) (*Recorder, error) {
	rec := newRecorder()
	err := n.Negotiate(negotiator.NegotiationContext{ResponseWriter: rec, Request: req, IsCreation: creation}, reps...)
	return rec, err
}

// protocol checks what every finished negotiation has to satisfy: an error
// with nothing sent, or exactly one complete response.
func protocol(rec *Recorder, err error) string {
	if err != nil {
		if !rec.untouched() {
			return fmt.Sprintf("error %q returned after a response was started (calls %s)", err, rec.calls)
		}
		return ""
	}
	if len(rec.statuses) != 1 {
		return fmt.Sprintf("WriteHeader called %d times without error", len(rec.statuses))
	}
	if len(rec.calls) > 1 && rec.calls[0] != 'h' {
		return "body written before the status"
	}
	return ""
}

// served identifies the representation whose metadata and bytes make up the response.
func served(rec *Recorder, reps []*Rep) int {
	for i, r := range reps {
		if bytes.Equal(rec.body, r.Body) {
			return i
		}
	}
	return -1
}

// bodyFor provides bytes that identify the representation, with a fixed length.
func bodyFor(id, size int) []byte {
	s := fmt.Sprintf("<%03d>", id)
	if size < len(s) {
		size = len(s)
	}
	// characters of two bytes, and a trailing line break.
	b := append([]byte(s), bytes.Repeat([]byte("\u00e9"), (size-len(s))/2)...)
	if len(b) < size {
		b = append(b, '\n')
	}
	return b
}

func describe(h http.Header, reps []*Rep) any {
	var rs []string
	for _, r := range reps {
		rs = append(rs, r.String())
	}
	return map[string]any{"request": h, "representations": rs}
}

func mustURL(s string) url.URL {
	u, err := url.Parse(s)
	must(err)
	return *u
}

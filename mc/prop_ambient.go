package main

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"context"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"strings"
	"syscall"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// The surroundings of a negotiation: kinds of errors, header fields that no
// negotiation considers, and representations that are given several times.

type errorKind struct {
	name string
	err  error
}

// customError is an error with every method that the standard library asks for.
type customError struct{ s string }

func (e *customError) Error() string   { return e.s }
func (e *customError) Timeout() bool   { return true }
func (e *customError) Temporary() bool { return true }

// valueError is a comparable error without text.
type valueError struct{}

func (valueError) Error() string { return "" }

// errorKinds are failures as environments report them.
func errorKinds() (out []errorKind) {
	for _, e := range []error{
		io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrClosedPipe, io.ErrNoProgress,
		context.Canceled, context.DeadlineExceeded,
		http.ErrAbortHandler, http.ErrBodyNotAllowed, http.ErrHandlerTimeout, http.ErrContentLength, http.ErrServerClosed, http.ErrHijacked, http.ErrNotSupported, http.ErrWriteAfterFlush, http.ErrBodyReadAfterClose, http.ErrUseLastResponse,
		os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrClosed, os.ErrDeadlineExceeded, os.ErrInvalid, fs.SkipAll, fs.SkipDir,
		net.ErrClosed, net.ErrWriteToConnected, &net.OpError{Op: "write", Err: syscall.EPIPE}, &net.DNSError{IsTimeout: true}, &fs.PathError{Op: "open", Path: "/x", Err: syscall.ENOENT},
		syscall.EPIPE, syscall.ECONNRESET, syscall.ENOSPC, syscall.EINTR, syscall.EAGAIN, syscall.ETIMEDOUT, syscall.Errno(0),
		gzip.ErrHeader, gzip.ErrChecksum, zlib.ErrHeader, zlib.ErrChecksum, flate.CorruptInputError(0), &json.SyntaxError{}, &json.UnsupportedValueError{}, &xml.SyntaxError{}, bytes.ErrTooLarge,
		representation.ErrUnsupportedContentEncoding, representation.ErrUnsupportedContentType, transparent.ErrVariantListSizeExceeded,
		errors.New(""), errors.New("EOF"), errors.New("%s%d"), &customError{}, &customError{"x"}, valueError{}, http.ErrSchemeMismatch,
	} {
		out = append(out, errorKind{fmt.Sprintf("%T %q", e, e), e})
	}
	for _, e := range []error{io.EOF, context.Canceled, syscall.EPIPE, transparent.ErrVariantListSizeExceeded, representation.ErrUnsupportedContentType} {
		out = append(out,
			errorKind{fmt.Sprintf("wrapped %q", e), fmt.Errorf("x: %w", e)},
			errorKind{fmt.Sprintf("joined %q", e), errors.Join(errInjected, e)})
	}
	return
}

// registeredHeaders are request and response header fields in use.
var registeredHeaders = strings.Fields(`A-IM Accept-Additions Accept-CH Accept-CH-Lifetime Accept-Datetime Accept-Feature Accept-Patch Accept-Post Accept-Push-Policy Accept-Query Accept-Ranges Accept-Signature Accept-Type Accept-Charsets Accept-Encodings Accept-Languages
 Access-Control-Allow-Credentials Access-Control-Allow-Headers Access-Control-Allow-Methods Access-Control-Allow-Origin Access-Control-Expose-Headers Access-Control-Max-Age Access-Control-Request-Headers Access-Control-Request-Method
 Age Allow Alpn Alt-Svc Alt-Used Alternates Authentication-Info Authorization Available-Dictionary Cache-Control Cache-Status Cal-Managed-Id Capsule-Protocol Cdn-Cache-Control Cdn-Loop Cert-Not-After Clear-Site-Data Client-Cert Close Connection
 Content-Charset Content-Digest Content-Disposition Content-Dpr Content-Encoding Content-Features Content-Id Content-Language Content-Length Content-Location Content-Md5 Content-Range Content-Security-Policy Content-Transfer-Encoding Content-Type Cookie Cookie2 Cross-Origin-Embedder-Policy
 Dasl Date Delta-Base Deprecation Depth Derived-From Destination Device-Memory Device-Stock-Ua Dictionary-Id Differential-Id Digest Dnt Downlink Dpop Dpr Early-Data Ect Etag Expect Expires Ext Forwarded From Front-End-Https Getprofile
 Hobareg Host Http2-Settings If If-Match If-Modified-Since If-None-Match If-Range If-Schedule-Tag-Match If-Unmodified-Since Im Include-Referred-Token-Binding-Id Isolation Keep-Alive Label Last-Event-Id Last-Modified Link Location Lock-Token Man Max-Forwards Memento-Datetime Meter Method-Check Mime-Version
 Negotiate-Version Nel Odata-Version Opt Optional-Www-Authenticate Ordering-Type Origin Origin-Agent-Cluster Oscore Overwrite P3p Pep Permissions-Policy Ping-From Ping-To Position Pragma Prefer Preference-Applied Priority Profile Proxy-Authorization Proxy-Connection Proxy-Status Public Purpose
 Range Referer Referer-Root Referrer-Policy Refresh Repeatability-Request-Id Replay-Nonce Repr-Digest Rtt Safe Save-Data Schedule-Reply Sec-Ch-Device-Memory Sec-Ch-Dpr Sec-Ch-Lang Sec-Ch-Prefers-Color-Scheme Sec-Ch-Prefers-Reduced-Data Sec-Ch-Save-Data Sec-Ch-Ua Sec-Ch-Ua-Mobile Sec-Ch-Ua-Platform Sec-Ch-Viewport-Width
 Sec-Fetch-Dest Sec-Fetch-Mode Sec-Fetch-Site Sec-Fetch-User Sec-Gpc Sec-Purpose Sec-Token-Binding Sec-Websocket-Key Sec-Websocket-Version Server Server-Timing Set-Cookie Signature Slug Soapaction Status-Uri Subst Sunset Surrogate-Capability Surrogate-Control
 Tcn Te Timeout Timing-Allow-Origin Topic Traceparent Tracestate Trailer Transfer-Encoding Translate Ttl Ua-Color Ua-Pixels Upgrade Upgrade-Insecure-Requests Urgency Uri Use-As-Dictionary User-Agent Variant-Vary Variants Variant-Key Vary Via Viewport-Width Want-Content-Digest Want-Digest Want-Repr-Digest Warning Width Www-Authenticate
 X-Accept X-Accept-Charset X-Accept-Encoding X-Accept-Features X-Accept-Language X-Att-Deviceid X-Correlation-Id X-Csrf-Token X-Device-User-Agent X-Forwarded-For X-Forwarded-Host X-Forwarded-Port X-Forwarded-Prefix X-Forwarded-Proto X-Forwarded-Scheme X-Http-Method X-Http-Method-Override X-Locale X-Language X-Method-Override X-Moz X-Negotiate X-Operamini-Features X-Operamini-Phone-Ua X-Original-Url X-Prefer X-Purpose X-Real-Ip X-Requested-With X-Request-Id X-Rewrite-Url X-Sourcemap X-Tcn X-Ua-Device X-Ua-Compatible X-Wap-Profile X-Wap-Client-Charset Nonsense`)

// registeredValues are values of such header fields.
var registeredValues = []string{"on", "1", "0", "?1", "*", "text/plain", "application/json", "fr", "utf-16", "gzip", "identity", "1.0", "trans", "no-transform", "trailers, gzip;q=0.5", "Mozilla/4.0 (compatible; MSIE 6.0)", "return=minimal", "XMLHttpRequest", "prefetch", "document", "bytes=0-1", "http://h.example/a/v1", "", "close", "HEAD", "h2c, websocket", "127.0.0.1",
	"image", "navigate", "0.25", "2.0", "320", "10000", "slow-2g", "2g", "handling=lenient", "handling=strict", "no-cache", "max-age=0", "only-if-cached", "same-origin", "cors", "bytes", "Thu, 31 May 2007 20:35:00 GMT", `"x"`, "u=1, i", "1.1 proxy", "100-continue", "chunked", "light", "true", "false", "mobile", "lang=fr", "q=0"}

// agents are values of User-Agent.
var agents = []string{"", "Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0 Safari/537.36", "Mozilla/5.0 (iPhone; CPU iPhone OS 17_0 like Mac OS X) Mobile/15E148", "Mozilla/4.0 (compatible; MSIE 7.0; Windows NT 6.0)", "curl/8.0", "Wget/1.21", "Googlebot/2.1", "Go-http-client/1.1", "Opera/9.80", "Lynx/2.8", "Mozilla/4.08 [en]", "python-requests/2", "Java/1.8", "ELinks", "Dalvik"}

// ambientChanges are those of irrelevantChanges, and every registered header
// field with every value.
func ambientChanges() []change {
	out := irrelevantChanges()
	add := func(k, v string) {
		k = http.CanonicalHeaderKey(k)
		out = append(out, change{name: k + ": " + v, kinds: "ptr", req: func(r *http.Request) { r.Header[k] = []string{v} }})
	}
	for _, k := range registeredHeaders {
		for _, v := range registeredValues {
			add(k, v)
		}
	}
	for _, a := range agents {
		add("User-Agent", a)
	}
	// names that resemble the ones of negotiation headers.
	for _, k := range []string{"Accept ", "", " Accept", "Accept_Language", "Accept:", "Accepts", "Acept"} {
		k := k
		for _, v := range []string{"text/plain", "fr", "gzip;q=0", "vlist", "nonsense;;"} {
			v := v
			out = append(out, change{name: fmt.Sprintf("%q: %s", k, v), kinds: "ptr", req: func(r *http.Request) { r.Header[k] = []string{v} }})
		}
	}
	return out
}

// decided are scenarios in which a single attribute of otherwise equal
// representations decides, or would if anything else took part.
func decided() (out []*scenario) {
	type attr struct {
		name string
		set  func(r *Rep, i int)
	}
	attrs := []attr{
		{"type", func(r *Rep, i int) { r.CT = []string{"text/html", "application/json", "text/plain"}[i] }},
		{"level", func(r *Rep, i int) { r.CT = []string{"text/html", "text/html;level=2", "text/html;level=1"}[i] }},
		{"language", func(r *Rep, i int) { r.CL = []string{"en-US", "fr", "de"}[i] }},
		{"charset", func(r *Rep, i int) { r.CC = []string{"utf-8", "iso-8859-1", "utf-16"}[i] }},
		{"coding", func(r *Rep, i int) { r.CE = [][]string{{"gzip"}, nil, {"deflate", "gzip"}}[i] }},
		{"features", func(r *Rep, i int) { r.CF = [][]string{{"tables"}, nil, {"!frames"}}[i] }},
		{"location", func(r *Rep, i int) { r.Loc = mustURL(fmt.Sprintf("http://h.example/a/%d", i)) }},
		{"quality", func(r *Rep, i int) { r.SQ = []float32{0.7, 0.9, 0.8}[i] }},
		{"size", func(r *Rep, i int) { r.Body = bodyFor(r.ID, []int{200, 100, 150}[i]) }},
	}
	heads := []http.Header{
		{},
		{"Accept": {"text/html, application/json;q=0.9, */*;q=0.2"}, "Accept-Language": {"fr, en;q=0.9, *;q=0.1"}, "Accept-Charset": {"utf-8, *;q=0.5"}, "Accept-Encoding": {"gzip, identity;q=0.5, *;q=0.2"}},
		{"Accept": {"image/png"}},
	}
	for _, a := range attrs {
		for order := 0; order < 3; order++ {
			for i, h := range heads {
				a, order := a, order
				tweak := func(reps []*Rep) {
					for i, r := range reps {
						r.CT, r.CL, r.CC, r.CE, r.CF, r.SQ = "text/html", "en-US", "utf-8", nil, nil, 0.9
						r.Loc = mustURL("http://h.example/a/v")
						r.Body = bodyFor(r.ID, 100)
						a.set(r, (i+order)%3)
					}
				}
				name := fmt.Sprintf("decided by %s %d, headers %d", a.name, order, i)
				out = append(out,
					&scenario{name: "proactive, " + name, kind: 'p', nreps: 3, header: h, tweak: tweak},
					&scenario{name: "transparent, " + name, kind: 't', nreps: 3, header: withNegotiate(h, "1.0"), tweak: tweak})
				if i < 2 {
					out = append(out,
						&scenario{name: "not strict, " + name, kind: 'p', nreps: 3, header: h, tweak: tweak, popts: []proactive.Option{proactive.DisableStrictMode()}},
						&scenario{name: "transparent guess, " + name, kind: 't', nreps: 3, header: withNegotiate(h, "guess-small"), tweak: tweak, topts: []transparent.Option{transparent.GuessSmallThreshold(5000)}})
				}
			}
		}
	}
	return
}

func withNegotiate(h http.Header, v string) http.Header {
	c := h.Clone()
	c["Negotiate"] = []string{v}
	return c
}

// ambientSpace changes what no negotiation of the kinds depends on.
func ambientSpace(kinds string) func(tier string) []*Space {
	return func(tier string) []*Space {
		var ss []*scenario
		for _, s := range append(scenarios(), decided()...) {
			if strings.IndexByte(kinds, s.kind) >= 0 {
				ss = append(ss, s)
			}
		}
		cs := ambientChanges()
		part := 5
		if kinds != "ptr" {
			part = 13
		}
		if thorough(tier) {
			part = 1
		}
		usual := len(irrelevantChanges())
		return []*Space{{Name: "what no negotiation considers", Dims: []int{len(ss), len(cs)}, Run: func(d []int, t *T) string {
			// every value of every field, with a part of the scenarios.
			if d[1] >= usual && (d[0]+d[1])%part != 0 {
				return t.Skip()
			}
			return changed(ss[d[0]], []change{cs[d[1]]}, t)
		}}}
	}
}

// methodSpace combines methods and protocols with everything of a request.
func methodSpace(string) []*Space {
	cs := irrelevantChanges()
	ss := decided()
	var some []*scenario
	for i, s := range ss {
		if i%5 == 0 {
			some = append(some, s)
		}
	}
	return []*Space{{Name: "decided, two changes", Dims: []int{len(some), len(cs), len(cs)}, Run: func(d []int, t *T) string {
		if d[1] == 0 || d[2] == 0 || d[1] == d[2] {
			return t.Skip()
		}
		return changed(some[d[0]], []change{cs[d[1]], cs[d[2]]}, t)
	}}}
}

// held is a representation of a comparable type that is not a pointer.
type held struct{ *Rep }

// instances gives the same instances several times: that is answered as
// negotiations of equal representations are.
func instances(kinds string) func(tier string) []*Space {
	return func(tier string) []*Space {
		type config struct {
			kind byte
			name string
			mk   func() negotiator.Negotiator
			h    http.Header
		}
		var cfgs []config
		formats := []string{"application/json", "application/xml", "application/yaml", "text/html"}
		heads := []http.Header{{}, {"Accept": {"text/html;q=0.5, application/json"}}, {"Accept-Language": {"fr"}}, {"Accept": {"text/*, */*;q=0.1"}, "Accept-Charset": {"utf-8, *;q=0.5"}, "Accept-Language": {"*"}}}
		for i, h := range heads {
			h := h
			cfgs = append(cfgs, config{'p', fmt.Sprint("proactive ", i), func() negotiator.Negotiator { return proactive.New() }, h},
				config{'p', fmt.Sprint("not strict ", i), func() negotiator.Negotiator { return proactive.New(proactive.DisableStrictMode()) }, h},
				config{'t', fmt.Sprint("transparent choice ", i), func() negotiator.Negotiator { return transparent.New() }, withNegotiate(h, "1.0")},
				config{'t', fmt.Sprint("transparent guess ", i), func() negotiator.Negotiator { return transparent.New() }, withNegotiate(h, "guess-small")})
		}
		for k := 0; k < 3; k++ {
			k := k
			cfgs = append(cfgs, config{'t', fmt.Sprint("transparent given choice ", k), func() negotiator.Negotiator { return transparent.New(transparent.RVSA(pickIndex(k))) }, http.Header{"Negotiate": {"*"}}},
				config{'p', fmt.Sprint("proactive given choice ", k), func() negotiator.Negotiator { return proactive.New(proactive.Algorithm(pickIndex(k))) }, nil})
		}
		for _, f := range formats {
			f := f
			cfgs = append(cfgs, config{'p', "406 " + f, func() negotiator.Negotiator {
				return proactive.New(proactive.Representations(newList(f, nil)), proactive.DefaultRepresentation(newList(f, nil)))
			}, http.Header{"Accept": {"image/png"}}},
				config{'t', "list " + f, func() negotiator.Negotiator { return transparent.New(transparent.ListRepresentation(newList(f, nil))) }, http.Header{"Negotiate": {"trans"}}},
				config{'t', "bound " + f, func() negotiator.Negotiator {
					return transparent.New(transparent.ListRepresentation(newList(f, nil)), transparent.MaximumVariantListSize(3))
				}, http.Header{"Negotiate": {"trans"}}},
				config{'r', "reactive " + f, func() negotiator.Negotiator { return reactive.New(reactive.Representation(newList(f, nil))) }, nil})
		}
		var used []config
		for _, c := range cfgs {
			if strings.IndexByte(kinds, c.kind) >= 0 {
				used = append(used, c)
			}
		}
		depth := 4
		if thorough(tier) {
			depth = 6
		}
		pools := 3
		return []*Space{{Name: "the same representations several times", Dims: append([]int{len(used), pools, 2}, dup(4, depth)...), Run: func(d []int, t *T) string {
			c := used[d[0]]
			pool := negotiatedReps()[:3]
			for i, r := range pool {
				switch d[1] {
				case 1: // one after the other, without differences
					r.CT, r.CL, r.CC, r.CE, r.CF, r.SQ = "text/html", "fr", "utf-8", nil, nil, 1
				case 2:
					r.CT, r.CL, r.CC, r.CE, r.CF, r.SQ = "text/html", "fr", "utf-8", nil, nil, 1
					r.Loc = mustURL("http://h.example/a/v")
					r.Body = bodyFor(i, 80-20*i)
				}
			}
			var same, copies []representation.Representation
			end := false
			for _, k := range d[3:] {
				if k == 0 {
					end = true
					continue
				}
				if end {
					return t.Skip()
				}
				r := pool[k-1]
				x := *r
				x.CE, x.CF = append([]string(nil), r.CE...), append([]string(nil), r.CF...)
				if d[2] == 0 {
					same, copies = append(same, r), append(copies, &x)
				} else {
					same, copies = append(same, held{r}), append(copies, held{&x})
				}
			}
			if len(same) < 2 {
				return t.Skip()
			}
			t.Describe(func() any {
				return map[string]any{"configuration": c.name, "indices": d[3:], "pool": describe(c.h, pool)}
			})
			a, aerr := negotiate(c.mk(), request(c.h.Clone(), nil), false, same...)
			b, berr := negotiate(c.mk(), request(c.h.Clone(), nil), false, copies...)
			t.Exec(2)
			t.Step("instances", hashStr(c.name), uint64(len(same)), uint64(d[1]))
			t.Outcome(fmt.Sprintf("%c %d", c.kind, a.status()))
			if fmt.Sprint(aerr) != fmt.Sprint(berr) || a.render() != b.render() {
				return fmt.Sprintf("representations given several times are answered %s %v, equal ones %s %v", a.render(), aerr, b.render(), berr)
			}
			return ""
		}}}
	}
}

func init() {
	kinds := errorKinds()
	extend("P07", func(string) []*Space {
		ss := scenarios()
		return []*Space{{Name: "kinds of failures", Dims: []int{len(ss), 10, len(kinds), 2}, Run: func(d []int, t *T) string {
			f := &faults{mask: 1 << uint(d[1]), from: -1, err: kinds[d[2]].err, short: d[3] * 7}
			return runFaults(ss[d[0]], f, t)
		}}, {Name: "kinds of failures of a kind", Dims: []int{len(ss), 4, len(kinds), 2}, Run: func(d []int, t *T) string {
			return runFaults(ss[d[0]], &faults{from: -1, kind: []string{"rep", "list", "Choose", "Write"}[d[1]], err: kinds[d[2]].err, short: d[3] << 20}, t)
		}}}
	})
	for id, k := range map[string]string{"I01": "ptr", "P01": "p", "P02": "p", "P03": "p", "P04": "p", "T01": "t", "T04": "t", "T05": "t", "T06": "t", "R01": "r", "P06": "ptr", "T02": "t"} {
		extend(id, ambientSpace(k))
	}
	extend("I01", methodSpace)
	for id, k := range map[string]string{"L01": "ptr", "I01": "ptr", "P01": "p", "P02": "p", "P04": "p", "P06": "ptr", "C01": "pt", "T01": "t", "T02": "t", "T04": "t", "T06": "t", "R01": "r", "P10": "ptr"} {
		extend(id, instances(k))
	}
}

package main

import (
	"errors"
	"fmt"
	"net/http"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
)

// errInjected is the failure of the environment.
var errInjected = errors.New("injected failure")

// faults decides which calls of the environment fail: the k-th call overall
// (mask bit k), from a call on, or every call of one kind.
type faults struct {
	mask  uint64
	from  int // all calls from this one on, -1 for none
	kind  string
	calls []string
	// failed are the calls that failed.
	failed []string
	short  int
	// partial rotates what calls that fail give beside the error.
	partial int
	// err is the failure, errInjected if there is none.
	err error
	// panics makes calls panic instead of giving an error.
	panics bool
	// hook is told of every call.
	hook func(call string)
}

// cause is the failure of the environment.
func (f *faults) cause() error {
	if f.err != nil {
		return f.err
	}
	return errInjected
}

// rest is what a call gives beside its error: nothing, a part or everything.
func (f *faults) rest(b []byte) []byte {
	switch (f.partial + len(f.calls)) % 3 {
	case 1:
		return b[:(len(b)+1)/2]
	case 2:
		return b
	}
	return nil
}

func noFaults() *faults { return &faults{from: -1} }

func (f *faults) call(name string) error {
	i := len(f.calls)
	f.calls = append(f.calls, name)
	if f.hook != nil {
		f.hook(name)
	}
	if (i < 64 && f.mask&(1<<uint(i)) != 0) || (f.from >= 0 && i >= f.from) || (f.kind != "" && strings.HasPrefix(name, f.kind)) {
		f.failed = append(f.failed, name)
		if f.panics {
			panic(f.cause())
		}
		return f.cause()
	}
	return nil
}

func (f *faults) hasFailed(prefix string) bool {
	for _, n := range f.failed {
		if strings.HasPrefix(n, prefix) {
			return true
		}
	}
	return false
}

// env is one negotiation with a faulty environment.
type env struct {
	f     *faults
	reps  []*Rep
	lists []*Rep
	// metadata of the lists, if not the usual one.
	metadata *Rep
}

// scenario is a negotiation with a known outcome in absence of failures.
type scenario struct {
	name string
	// kind of the negotiator: p(roactive), t(ransparent), r(eactive)
	kind     byte
	nreps    int
	header   http.Header
	creation bool
	// outcome: ok, notacceptable, nocontent, list, choice, error
	outcome string
	// lists tells that list bytes are part of the environment.
	custom bool
	// chooser of the scenario, nil for the default one.
	choose func(e *env, reps []representation.Representation) (representation.Representation, error)
	popts  []proactive.Option
	topts  []transparent.Option
	ropts  []reactive.Option
	tweak  func(reps []*Rep)
	// changes of the request, the context and the response writer.
	changes []change
	// relative tells that the resource is requested without scheme and host,
	// as servers get it.
	relative bool
}

// relativeTo provides the scenario with relative URLs.
func (s *scenario) relativeTo() *scenario {
	c := *s
	c.name, c.relative = s.name+", relative", true
	return &c
}

// everyScenario are the scenarios with absolute and with relative URLs.
func everyScenario() (out []*scenario) {
	for _, s := range scenarios() {
		out = append(out, s, s.relativeTo())
	}
	return
}

// request is the one of the scenario.
func (s *scenario) request() *http.Request {
	r := request(s.header.Clone(), nil)
	if s.relative {
		r.URL.Scheme, r.URL.Host = "", ""
	}
	return r
}

// with provides the scenario with the changes, nil if they don't apply.
func (s *scenario) with(cs ...change) *scenario {
	c := *s
	c.name = s.name
	for _, x := range cs {
		if strings.IndexByte(x.kinds, s.kind) < 0 {
			return nil
		}
		c.name += ", " + x.name
	}
	c.changes = append(append([]change{}, s.changes...), cs...)
	return &c
}

// list builds the list constructor of the environment.
func (e *env) list(ct string) representation.ListConstructor {
	return func(reps ...representation.Representation) representation.Representation {
		l := &Rep{ID: 100 + len(e.lists), CT: ct, CL: "en-US", CC: "ascii", CE: []string{"identity"}, Body: []byte(fmt.Sprintf("<list %s of %d>", ct, len(reps)))}
		if m := e.metadata; m != nil {
			l.CT, l.CL, l.CC, l.CE, l.Loc, l.Body = m.CT, m.CL, m.CC, m.CE, m.Loc, m.Body
		}
		l.onBytes = func(r *Rep) ([]byte, error) {
			if err := e.f.call("list.Bytes " + ct); err != nil {
				return e.f.rest(r.Body), err
			}
			return r.Body, nil
		}
		e.lists = append(e.lists, l)
		return l
	}
}

// build makes the negotiator and the environment of the scenario.
func (s *scenario) build(f *faults, scope tally.Scope) (negotiator.Negotiator, *env) {
	e := &env{f: f}
	for i := 0; i < s.nreps; i++ {
		r := plain(i)
		r.CT, r.CL, r.CC = []string{"text/html", "application/json", "text/plain"}[i%3], []string{"en-US", "fr", "de"}[i%3], []string{"utf-8", "iso-8859-1", "us-ascii"}[i%3]
		r.CE = [][]string{{"gzip"}, nil, {"deflate", "gzip"}}[i%3]
		r.Loc = mustURL(fmt.Sprintf("http://h.example/a/v%d", i))
		r.Body = bodyFor(i, 20)
		r.onBytes = func(r *Rep) ([]byte, error) {
			if err := f.call(fmt.Sprintf("rep%d.Bytes", r.ID)); err != nil {
				return f.rest(r.Body), err
			}
			return r.Body, nil
		}
		e.reps = append(e.reps, r)
	}
	if s.tweak != nil {
		s.tweak(e.reps)
	}
	for _, r := range e.reps {
		if s.relative && r.Loc.Host == "h.example" {
			r.Loc.Scheme, r.Loc.Host = "", ""
		}
	}
	var chooser representation.Chooser
	if s.choose != nil {
		chooser = chooserFunc(func(_ *http.Request, reps ...representation.Representation) (representation.Representation, error) {
			if err := f.call("Choose"); err != nil {
				if len(reps) > 0 && f.rest([]byte{0}) != nil {
					return reps[len(reps)-1], err
				}
				return nil, err
			}
			return s.choose(e, reps)
		})
	}
	switch s.kind {
	case 'p':
		var o []proactive.Option
		if chooser != nil {
			o = append(o, proactive.Algorithm(chooser))
		}
		if s.custom {
			o = append(o, proactive.Representations(e.list("application/json"), e.list("application/xml")), proactive.DefaultRepresentation(e.list("text/plain")))
		}
		if scope != nil {
			o = append(o, proactive.Scope(scope))
		}
		return proactive.New(append(o, s.popts...)...), e
	case 't':
		var o []transparent.Option
		if chooser != nil {
			o = append(o, transparent.RVSA(chooser))
		}
		if s.custom {
			o = append(o, transparent.ListRepresentation(e.list("application/json")))
		}
		if scope != nil {
			o = append(o, transparent.Scope(scope))
		}
		return transparent.New(append(o, s.topts...)...), e
	default:
		var o []reactive.Option
		if s.custom {
			o = append(o, reactive.Representation(e.list("application/json")))
		}
		if scope != nil {
			o = append(o, reactive.Scope(scope))
		}
		return reactive.New(append(o, s.ropts...)...), e
	}
}

// run negotiates once.
func (s *scenario) run(n negotiator.Negotiator, e *env) (*Recorder, error) {
	return s.runOn(newRecorder(), n, e)
}

// runOn is run with the recorder.
func (s *scenario) runOn(rec *Recorder, n negotiator.Negotiator, e *env) (*Recorder, error) {
	rec.fail = func() error { return e.f.call("Write") }
	rec.short = e.f.short
	ctx := negotiator.NegotiationContext{ResponseWriter: rec, Request: s.request(), IsCreation: s.creation}
	if len(s.changes) > 0 && ctx.Request.Header == nil {
		ctx.Request.Header = http.Header{}
	}
	for _, c := range s.changes {
		c.req(ctx.Request)
		if c.ctx != nil {
			c.ctx(&ctx)
		}
		for k, v := range c.keep {
			rec.header[k] = append([]string{}, v...)
		}
	}
	err := n.Negotiate(ctx, asReps(e.reps)...)
	return rec, err
}

func pickRep(i int) func(*env, []representation.Representation) (representation.Representation, error) {
	return func(_ *env, reps []representation.Representation) (representation.Representation, error) {
		if i >= len(reps) {
			return nil, nil
		}
		return reps[i], nil
	}
}

// pickLater chooses nothing at first, and then the i-th representation.
func pickLater(i int) func(*env, []representation.Representation) (representation.Representation, error) {
	return func(e *env, reps []representation.Representation) (representation.Representation, error) {
		n := 0
		for _, c := range e.f.calls {
			if c == "Choose" {
				n++
			}
		}
		if n < 2 {
			return nil, nil
		}
		return reps[i], nil
	}
}

func pickNone(*env, []representation.Representation) (representation.Representation, error) {
	return nil, nil
}

// scenarios cover every response of every negotiator.
func scenarios() []*scenario {
	h := func(kv ...string) http.Header {
		x := http.Header{}
		for i := 0; i < len(kv); i += 2 {
			x[kv[i]] = append(x[kv[i]], kv[i+1])
		}
		return x
	}
	sameSize := func(reps []*Rep) {
		for _, r := range reps {
			r.CT, r.CL, r.CC, r.CE = "text/html", "en-US", "utf-8", nil
		}
	}
	return []*scenario{
		{name: "proactive 204", kind: 'p', nreps: 0, outcome: "nocontent"},
		{name: "proactive 200", kind: 'p', nreps: 3, header: h("Accept", "application/json, */*;q=0.5"), outcome: "ok"},
		{name: "proactive 201", kind: 'p', nreps: 2, creation: true, header: h("Accept-Language", "fr"), outcome: "ok"},
		{name: "proactive 200, equal representations", kind: 'p', nreps: 3, tweak: sameSize, outcome: "ok"},
		{name: "proactive 200, sizes", kind: 'p', nreps: 3, tweak: func(reps []*Rep) {
			sameSize(reps)
			for i, r := range reps {
				r.Body = bodyFor(r.ID, 40-10*i)
			}
		}, outcome: "ok"},
		{name: "proactive 406", kind: 'p', nreps: 2, header: h("Accept", "image/png"), outcome: "notacceptable"},
		{name: "proactive 406, list chosen", kind: 'p', nreps: 2, header: h("Accept", "application/xml"), custom: true, outcome: "notacceptable"},
		{name: "proactive 406, equal lists", kind: 'p', nreps: 2, header: h("Accept-Charset", "ascii"), custom: true, outcome: "notacceptable"},
		{name: "proactive 406, default list", kind: 'p', nreps: 2, header: h("Accept", "image/png"), custom: true, outcome: "notacceptable"},
		{name: "proactive 406, no body", kind: 'p', nreps: 2, header: h("Accept", "image/png"), popts: []proactive.Option{proactive.DisableNotAcceptableRepresentation()}, outcome: "notacceptable"},
		{name: "proactive 406, coding", kind: 'p', nreps: 1, header: h("Accept-Encoding", "br, *;q=0"), custom: true, outcome: "notacceptable"},
		{name: "proactive 200, not strict", kind: 'p', nreps: 2, header: h("Accept", "image/png"), popts: []proactive.Option{proactive.DisableStrictMode()}, outcome: "ok"},
		{name: "proactive 200, custom chooser", kind: 'p', nreps: 3, choose: pickRep(1), outcome: "ok"},
		{name: "proactive 200, not strict, custom chooser", kind: 'p', nreps: 3, header: h("Accept", "image/png"), choose: pickLater(1), popts: []proactive.Option{proactive.DisableStrictAccept()}, outcome: "ok"},
		{name: "proactive 406, not strict, custom chooser", kind: 'p', nreps: 2, header: h("Accept-Charset", "koi8-r"), custom: true, choose: pickNone, popts: []proactive.Option{proactive.DisableStrictAcceptCharset()}, outcome: "notacceptable"},
		{name: "proactive 406, custom chooser", kind: 'p', nreps: 3, custom: true, choose: pickNone, outcome: "notacceptable"},
		{name: "proactive 406, custom chooser, second list", kind: 'p', nreps: 3, custom: true, header: h("Accept", "image/png"), choose: pickRep(1), outcome: "notacceptable"},
		{name: "proactive malformed Accept", kind: 'p', nreps: 2, header: h("Accept", "nonsense;;"), outcome: "error"},
		{name: "proactive malformed Accept-Encoding", kind: 'p', nreps: 2, header: h("Accept-Encoding", "gzip;q=7"), outcome: "error"},
		{name: "proactive malformed Accept-Language", kind: 'p', nreps: 2, header: h("Accept-Language", "!"), outcome: "error"},
		{name: "proactive malformed Accept-Charset", kind: 'p', nreps: 2, header: h("Accept-Charset", "utf-8;q=2"), outcome: "error"},
		{name: "transparent 204", kind: 't', nreps: 0, header: h("Negotiate", "*"), outcome: "nocontent"},
		{name: "transparent list", kind: 't', nreps: 3, header: h("Negotiate", "trans"), outcome: "list"},
		{name: "transparent list, custom", kind: 't', nreps: 3, custom: true, header: h("Negotiate", "vlist"), outcome: "list"},
		{name: "transparent choice", kind: 't', nreps: 3, header: h("Negotiate", "1.0", "Accept", "text/html", "Accept-Language", "en-US", "Accept-Charset", "utf-8"), outcome: "choice"},
		{name: "transparent nothing definite", kind: 't', nreps: 3, custom: true, header: h("Negotiate", "1.0"), outcome: "list"},
		{name: "transparent custom chooser", kind: 't', nreps: 3, custom: true, header: h("Negotiate", "*"), choose: pickRep(2), outcome: "choice"},
		{name: "transparent custom chooser, none", kind: 't', nreps: 3, custom: true, header: h("Negotiate", "*"), choose: pickNone, outcome: "list"},
		{name: "transparent guess-small choice", kind: 't', nreps: 3, custom: true, header: h("Negotiate", "guess-small"), choose: pickRep(0), outcome: "choice"},
		{name: "transparent guess-small list", kind: 't', nreps: 3, custom: true, header: h("Negotiate", "guess-small"), choose: pickRep(0), outcome: "list", tweak: func(reps []*Rep) { reps[0].Body = bodyFor(0, 500) }},
		{name: "transparent not a neighbor", kind: 't', nreps: 3, header: h("Negotiate", "*"), choose: pickRep(0), outcome: "list", tweak: func(reps []*Rep) { reps[0].Loc = mustURL("http://other.example/a/v") }},
		{name: "transparent too many", kind: 't', nreps: 3, header: h("Negotiate", "*"), topts: []transparent.Option{transparent.MaximumVariantListSize(2)}, outcome: "error"},
		{name: "transparent malformed Negotiate", kind: 't', nreps: 3, header: h("Negotiate", ""), outcome: "error"},
		{name: "transparent malformed Accept", kind: 't', nreps: 3, header: h("Negotiate", "*", "Accept", "nonsense;;"), outcome: "error"},
		{name: "transparent malformed features", kind: 't', nreps: 2, header: h("Negotiate", "*", "Accept-Features", "x"), tweak: func(reps []*Rep) { reps[1].CF = []string{"[["} }, outcome: "error"},
		{name: "reactive 204", kind: 'r', nreps: 0, outcome: "nocontent"},
		{name: "reactive 300, one", kind: 'r', nreps: 1, outcome: "multiplechoices"},
		{name: "transparent list, one", kind: 't', nreps: 1, header: h("Negotiate", "vlist"), outcome: "list"},
		{name: "transparent choice, one", kind: 't', nreps: 1, header: h("Negotiate", "1.0", "Accept", "text/html", "Accept-Language", "en-US", "Accept-Charset", "utf-8"), outcome: "choice"},
		{name: "proactive 200, one", kind: 'p', nreps: 1, outcome: "ok"},
		{name: "proactive 201, one", kind: 'p', nreps: 1, creation: true, header: h("Accept", "text/html"), outcome: "ok"},
		{name: "proactive 406, creation", kind: 'p', nreps: 1, creation: true, header: h("Accept", "image/png"), outcome: "notacceptable"},
		{name: "reactive 300", kind: 'r', nreps: 3, outcome: "multiplechoices"},
		{name: "reactive 300, custom", kind: 'r', nreps: 2, custom: true, outcome: "multiplechoices"},
	}
}

var statusOf = map[string]int{"nocontent": 204, "notacceptable": 406, "list": 300, "choice": 200, "multiplechoices": 300}

// complete checks a response that has been sent without failure.
func (s *scenario) complete(rec *Recorder, e *env, outcome string) string {
	want := statusOf[outcome]
	if outcome == "ok" {
		want = 200
		if s.creation {
			want = 201
		}
	}
	if rec.status() != want {
		return fmt.Sprintf("status %d, expected %d", rec.status(), want)
	}
	return consistent(rec)
}

// consistent checks that the metadata of a response is consistent with itself.
func consistent(rec *Recorder) string {
	if len(rec.statuses) != 1 {
		return fmt.Sprintf("%d status lines", len(rec.statuses))
	}
	if cl := rec.snapshot.Values("Content-Length"); len(cl) > 1 || len(cl) == 1 && cl[0] != fmt.Sprint(len(rec.body)) || len(cl) == 0 && len(rec.body) > 0 {
		return fmt.Sprintf("Content-Length is %q, %d bytes were sent", cl, len(rec.body))
	}
	return ""
}

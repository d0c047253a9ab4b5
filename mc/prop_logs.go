package main

import (
	"fmt"
	"net/http"
	"strings"
	"sync"

	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// logCore keeps the records of one negotiation.
type logCore struct {
	mu      sync.Mutex
	level   zapcore.Level
	records []logRecord
}

type logRecord struct {
	level   zapcore.Level
	message string
	fields  map[string]any
}

func (c *logCore) Enabled(l zapcore.Level) bool      { return l >= c.level }
func (c *logCore) With([]zapcore.Field) zapcore.Core { return c }
func (c *logCore) Sync() error                       { return nil }
func (c *logCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if c.Enabled(e.Level) {
		return ce.AddCore(e, c)
	}
	return ce
}

func (c *logCore) Write(e zapcore.Entry, fs []zapcore.Field) error {
	enc := zapcore.NewMapObjectEncoder()
	for _, f := range fs {
		f.AddTo(enc)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.records = append(c.records, logRecord{e.Level, e.Message, enc.Fields})
	return nil
}

// described are the records that tell of a response.
func (c *logCore) described() (rs []logRecord) {
	for _, r := range c.records {
		if _, ok := r.fields["status"]; ok && r.level == zapcore.InfoLevel {
			rs = append(rs, r)
		}
	}
	return
}

func (r logRecord) String() string { return fmt.Sprintf("%s %q %v", r.level, r.message, r.fields) }

// logged provides the negotiation with the logger.
func (s *scenario) logged(l *zap.Logger) *scenario {
	c := *s
	c.popts = append(append([]proactive.Option{}, s.popts...), proactive.Logger(l))
	c.topts = append(append([]transparent.Option{}, s.topts...), transparent.Logger(l))
	c.ropts = append(append([]reactive.Option{}, s.ropts...), reactive.Logger(l))
	return &c
}

// loggedHeaders are the response headers that records tell of.
var loggedHeaders = []string{"Content-Length", "Content-Type", "Content-Encoding", "Content-Language", "Content-Charset", "Content-Location", "Alternates", "Tcn"}

// logsTell checks the records of a negotiation against its response.
func logsTell(c *logCore, rec *Recorder, err error) string {
	rs := c.described()
	if c.level > zapcore.InfoLevel {
		for _, r := range c.records {
			if r.level < c.level {
				return fmt.Sprintf("record below the level of the logger: %s", r)
			}
		}
		return ""
	}
	if err != nil {
		if len(rs) != 0 {
			return fmt.Sprintf("the negotiation failed with %q, but is logged as %s", err, rs[0])
		}
		return ""
	}
	if len(rs) != 1 {
		return fmt.Sprintf("the response is logged %d times", len(rs))
	}
	r := rs[0]
	if got := fmt.Sprint(r.fields["status"]); got != fmt.Sprint(rec.status()) {
		return fmt.Sprintf("logged status %s of a response with status %d", got, rec.status())
	}
	for _, h := range loggedHeaders {
		v, ok := r.fields[strings.ToLower(h)]
		if got := fmt.Sprint(v); ok && got != rec.snapshot.Get(h) {
			return fmt.Sprintf("logged %s %q of a response with %q", strings.ToLower(h), got, rec.snapshot.Get(h))
		}
		if !ok && rec.snapshot.Get(h) != "" {
			return fmt.Sprintf("%s %q of the response isn't logged", h, rec.snapshot.Get(h))
		}
	}
	return ""
}

// observed runs the scenario silently and again with the logger and scope.
func observed(s *scenario, level zapcore.Level, mkFaults func() *faults, t *T) string {
	quiet, qe := s.build(mkFaults(), nil)
	qrec, qerr := s.run(quiet, qe)
	core := &logCore{level: level}
	n, e := s.logged(zap.New(core)).build(mkFaults(), tally.NewTestScope("svc", nil))
	core.records = nil
	rec, err := s.run(n, e)
	t.Exec(2)
	o := "sent"
	if err != nil {
		o = "error"
	}
	t.Describe(func() any { return map[string]any{"scenario": s.name, "level": level.String(), "failed": e.f.failed} })
	t.Outcome(fmt.Sprintf("%c %s", s.kind, o))
	t.Step("log", hashStr(s.name), uint64(level+1), hashStr(strings.Join(e.f.failed, ",")))
	if fmt.Sprint(qerr) != fmt.Sprint(err) {
		return fmt.Sprintf("error %v with a logger, %v without", err, qerr)
	}
	if a, b := rec.render(), qrec.render(); a != b {
		return fmt.Sprintf("response with a logger %s, without %s", a, b)
	}
	if a, b := fmt.Sprint(e.f.calls), fmt.Sprint(qe.f.calls); a != b {
		return fmt.Sprintf("calls with a logger %s, without %s", a, b)
	}
	return logsTell(core, rec, err)
}

func init() {
	register(&Prop{
		ID:   "M01",
		Rule: "every scenario with every single failure and failing kind runs without and with loggers of every level; responses of every combination of metadata are compared field by field with what is logged; every sequence of negotiations shares a logger",
		Spaces: func(tier string) []*Space {
			ss := scenarios()
			levels := []zapcore.Level{zapcore.DebugLevel, zapcore.InfoLevel, zapcore.WarnLevel, zapcore.ErrorLevel}
			kinds := []string{"rep", "rep0", "rep1", "rep2", "list", "Choose", "Write"}
			out := []*Space{
				{Name: "scenarios", Dims: []int{len(ss), len(levels)}, Run: func(d []int, t *T) string {
					return observed(ss[d[0]], levels[d[1]], noFaults, t)
				}},
				{Name: "one failure", Dims: []int{len(ss), len(levels), 12, 4}, Run: func(d []int, t *T) string {
					return observed(ss[d[0]], levels[d[1]], func() *faults {
						return &faults{mask: 1 << uint(d[2]), from: -1, short: []int{0, 1, 7, 1 << 20}[d[3]]}
					}, t)
				}},
				{Name: "failing kind", Dims: []int{len(ss), len(levels), len(kinds)}, Run: func(d []int, t *T) string {
					return observed(ss[d[0]], levels[d[1]], func() *faults { return &faults{kind: kinds[d[2]], from: -1, short: 1} }, t)
				}},
				{Name: "two failures", Dims: []int{len(ss), 12, 12}, Run: func(d []int, t *T) string {
					if d[2] <= d[1] {
						return t.Skip()
					}
					return observed(ss[d[0]], zapcore.DebugLevel, func() *faults { return &faults{mask: 1<<uint(d[1]) | 1<<uint(d[2]), from: -1} }, t)
				}},
				logMetadata(thorough(tier)),
			}
			depth := 2
			if thorough(tier) {
				depth = 3
			}
			dims := make([]int, depth)
			for i := range dims {
				dims[i] = len(ss)
			}
			out = append(out, &Space{Name: fmt.Sprintf("sequences of %d", depth), Dims: dims, Run: func(d []int, t *T) string {
				core := &logCore{level: zapcore.DebugLevel}
				l := zap.New(core)
				var names []string
				t.Describe(func() any { return names })
				h := uint64(1)
				for _, k := range d {
					s := ss[k].logged(l)
					n, e := s.build(noFaults(), nil)
					core.records = nil
					rec, err := s.run(n, e)
					t.Exec(1)
					names = append(names, s.name)
					h = mix(h, hashStr(s.name))
					t.Step("sequence", h)
					if m := logsTell(core, rec, err); m != "" {
						return fmt.Sprintf("%s after %q", m, names)
					}
				}
				t.Outcome("sequence")
				return ""
			}})
			return out
		},
	})
}

// logMetadata compares the records with responses of all kinds and metadata.
func logMetadata(th bool) *Space {
	cts := []string{"", "text/html", "text/html;level=1", "a/b; c=\"d, e\""}
	cls := []string{"", "en-US", "zh-Hant"}
	ccs := []string{"", "utf-8", "ISO-8859-1"}
	ces := [][]string{nil, {"gzip"}, {"deflate", "gzip"}, {"gzip", "gzip", "compress"}, {"identity"}, {"identity", "gzip"}, {"GZIP", "identity"}, {"x-gzip"}}
	locs := []string{"http://h.example/a/v", "http://h.example/a/v%20w?x=1&y=2#f", "http://h.example/a/%C3%BC", "v", ""}
	sizes := []int{5, 9, 10, 1000}
	kinds := []string{"200", "201", "406", "list", "choice", "reactive"}
	return &Space{Name: "metadata", Dims: []int{len(kinds), len(cts), len(cls), len(ccs), len(ces), len(locs), len(sizes)}, Run: func(d []int, t *T) string {
		r := plain(0)
		r.CT, r.CL, r.CC, r.CE, r.Loc, r.Body = cts[d[1]], cls[d[2]], ccs[d[3]], ces[d[4]], mustURL(locs[d[5]]), bodyFor(0, sizes[d[6]])
		core := &logCore{level: zapcore.DebugLevel}
		f := noFaults()
		s := &scenario{name: kinds[d[0]], kind: 'p', nreps: 2, tweak: func(reps []*Rep) {
			reps[1].CT, reps[1].CL, reps[1].CC = "x/y", "sv", "koi8-r"
			*reps[0] = *r
		}, choose: pickRep(0)}
		switch kinds[d[0]] {
		case "201":
			s.creation = true
		case "406":
			s.custom, s.choose = true, pickNone
		case "list":
			s.kind, s.custom = 't', true
		case "choice":
			s.kind, s.header = 't', http.Header{"Negotiate": {"*"}}
		case "reactive":
			s.kind, s.custom, s.choose = 'r', true, nil
		}
		n, e := s.logged(zap.New(core)).build(f, nil)
		core.records = nil
		// the lists of the environment carry the metadata as well.
		if s.custom {
			e.metadata = r
		}
		rec, err := s.run(n, e)
		t.Exec(1)
		t.Describe(func() any { return map[string]any{"kind": s.name, "representation": r.String()} })
		t.Outcome(fmt.Sprintf("%s %d %v", s.name, rec.status(), err != nil))
		t.Step("metadata", uint64(d[0]), uint64(d[1]), uint64(d[2]), uint64(d[3]), uint64(d[4]), uint64(d[5]), uint64(d[6]))
		if err != nil && s.kind != 't' {
			return fmt.Sprintf("unexpected error %q", err)
		}
		return logsTell(core, rec, err)
	}}
}

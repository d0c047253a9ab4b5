package main

import (
	"fmt"
	"io"
	"net/http"
	"time"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// The optional interfaces of response writers. Whatever is sent through them
// is part of the same response.
type (
	flusher    struct{ r *Recorder }
	flushError struct{ r *Recorder }
	stringer   struct{ r *Recorder }
	readerFrom struct{ r *Recorder }
	unwrapper  struct{ w http.ResponseWriter }
	closing    struct{ c chan bool }
	pusher     struct{ pushed *int }
)

func (f flusher) Flush() {
	if len(f.r.statuses) == 0 && f.r.writes == 0 {
		f.r.WriteHeader(200)
	}
}
func (f flushError) FlushError() error { flusher(f).Flush(); return nil }
func (s stringer) WriteString(x string) (int, error) {
	return s.r.Write([]byte(x))
}
func (s readerFrom) ReadFrom(x io.Reader) (int64, error) {
	b, err := io.ReadAll(x)
	if err != nil {
		return 0, err
	}
	n, err := s.r.Write(b)
	return int64(n), err
}
func (u unwrapper) Unwrap() http.ResponseWriter                { return u.w }
func (c closing) CloseNotify() <-chan bool                     { return c.c }
func (p pusher) Push(target string, _ *http.PushOptions) error { *p.pushed++; return nil }

// kindsOfWriters provides writers that implement optional interfaces.
func kindsOfWriters() []func(r *Recorder) http.ResponseWriter {
	return []func(r *Recorder) http.ResponseWriter{
		func(r *Recorder) http.ResponseWriter { return struct{ http.ResponseWriter }{r} },
		func(r *Recorder) http.ResponseWriter {
			return struct {
				http.ResponseWriter
				http.Flusher
			}{r, flusher{r}}
		},
		func(r *Recorder) http.ResponseWriter {
			return struct {
				http.ResponseWriter
				flushError
			}{r, flushError{r}}
		},
		func(r *Recorder) http.ResponseWriter {
			return struct {
				http.ResponseWriter
				io.StringWriter
			}{r, stringer{r}}
		},
		func(r *Recorder) http.ResponseWriter {
			return struct {
				http.ResponseWriter
				io.ReaderFrom
			}{r, readerFrom{r}}
		},
		func(r *Recorder) http.ResponseWriter {
			return struct {
				http.ResponseWriter
				unwrapper
			}{r, unwrapper{r}}
		},
		func(r *Recorder) http.ResponseWriter {
			return struct {
				http.ResponseWriter
				closing
				pusher
			}{r, closing{make(chan bool)}, pusher{new(int)}}
		},
		func(r *Recorder) http.ResponseWriter {
			closed := make(chan bool)
			close(closed)
			return struct {
				http.ResponseWriter
				closing
			}{r, closing{closed}}
		},
		func(r *Recorder) http.ResponseWriter {
			return struct {
				http.ResponseWriter
				http.Flusher
				io.StringWriter
				io.ReaderFrom
				http.Pusher
			}{r, flusher{r}, stringer{r}, readerFrom{r}, pusher{new(int)}}
		},
	}
}

// envConfig is a configuration whose response carries a body of the representations
// or of a list.
type envConfig struct {
	kind byte
	name string
	mk   func() negotiator.Negotiator
	h    http.Header
}

func envConfigs(kinds string) (out []envConfig) {
	add := func(kind byte, name string, mk func() negotiator.Negotiator, h http.Header) {
		for _, k := range kinds {
			if byte(k) == kind {
				out = append(out, envConfig{kind, name, mk, h})
			}
		}
	}
	add('p', "choice", func() negotiator.Negotiator { return proactive.New() }, nil)
	add('p', "406 without body", func() negotiator.Negotiator {
		return proactive.New(proactive.Algorithm(pickIndex(99)), proactive.DisableNotAcceptableRepresentation())
	}, nil)
	add('t', "choice", func() negotiator.Negotiator { return transparent.New(transparent.RVSA(pickIndex(0))) }, http.Header{"Negotiate": {"*"}})
	add('t', "guess", func() negotiator.Negotiator { return transparent.New(transparent.RVSA(pickIndex(0))) }, http.Header{"Negotiate": {"guess-small"}})
	for _, ct := range []string{"application/json", "application/xml", "application/yaml", "text/yaml", "text/html"} {
		for _, ce := range [][]string{{"identity"}, {"gzip"}, {"compress"}, {"deflate"}, {"gzip", "deflate"}, {"deflate", "x-gzip"}} {
			ct, ce := ct, ce
			l := newList(ct, func(l *representation.List) { l.SetContentEncoding(ce) })
			name := fmt.Sprintf("%s %v", ct, ce)
			add('p', "406 "+name, func() negotiator.Negotiator {
				return proactive.New(proactive.Algorithm(pickIndex(99)), proactive.DefaultRepresentation(l))
			}, nil)
			add('t', "list "+name, func() negotiator.Negotiator { return transparent.New(transparent.ListRepresentation(l)) }, nil)
			add('r', "list "+name, func() negotiator.Negotiator { return reactive.New(reactive.Representation(l)) }, nil)
		}
	}
	return
}

// envReps are representations whose bodies are texts, other bytes, or large.
func envReps(body int, ct string) []*Rep {
	b := [][]byte{nil, []byte("text\r\n"), []byte("\xe9\xff\x00 latin 1"), {0x1f, 0x8b, 0, 0xfe}, []byte("\xef\xbb\xbfbom"), make([]byte, 70000)}[body]
	r1, r2 := plain(0), plain(1)
	r1.CT, r1.CC, r1.Body = ct, "iso-8859-1", b
	r1.Loc = mustURL("http://h.example/a/v\u00e9")
	r2.SQ = 0.5
	return []*Rep{r1, r2}
}

// writerSpaces: the kind of the response writer does not matter.
func writerSpaces(kinds string) func(tier string) []*Space {
	return func(string) []*Space {
		cfgs, ws := envConfigs(kinds), kindsOfWriters()
		types := []string{"text/html", "text/plain; charset=utf-8", "application/json", "image/png", ""}
		return []*Space{{Name: "kinds of response writers", Dims: []int{len(cfgs), len(ws), 6, len(types), 3}, Run: func(d []int, t *T) string {
			c := cfgs[d[0]]
			reps := envReps(d[2], types[d[3]])
			if d[4] == 2 {
				reps = nil
			}
			t.Describe(func() any {
				return map[string]any{"configuration": c.name, "writer": d[1], "input": describe(c.h, reps)}
			})
			t.Step("writer", hashStr(c.name), uint64(d[1]))
			run := func(wrap func(*Recorder) http.ResponseWriter) (string, string) {
				rec := newRecorder()
				if d[4] == 1 {
					rec.fail, rec.short = func() error { return errInjected }, 3
				}
				err := c.mk().Negotiate(negotiator.NegotiationContext{ResponseWriter: wrap(rec), Request: request(c.h.Clone(), nil)}, asReps(reps)...)
				if err == nil {
					if m := protocol(rec, err); m != "" {
						return "", m
					}
				}
				return fmt.Sprintf("%v %q %q %v", rec.statuses, rec.snapshot, rec.body, err), ""
			}
			want, m := run(func(r *Recorder) http.ResponseWriter { return r })
			if m != "" {
				return m
			}
			got, m := run(ws[d[1]])
			t.Exec(2)
			if m != "" {
				return m
			}
			t.Outcome(string(c.kind))
			if got != want {
				return fmt.Sprintf("answered %s, with a plain response writer %s", got, want)
			}
			return ""
		}}}
	}
}

// clockSpaces: the time does not matter. The answers of all configurations are
// compared with the ones in another second.
func clockSpaces(kinds string) func(tier string) []*Space {
	return func(string) []*Space {
		cfgs := envConfigs(kinds)
		return []*Space{{Name: "in another second", Dims: []int{1}, Serial: true, Slow: true, Run: func(d []int, t *T) string {
			var answers [2][]string
			var names []string
			for round := range answers {
				if round > 0 {
					time.Sleep(2100 * time.Millisecond)
				}
				names = nil
				for _, c := range cfgs {
					for body := 0; body < 6; body++ {
						rec, err := negotiate(c.mk(), request(c.h.Clone(), nil), false, asReps(envReps(body, "text/html"))...)
						t.Exec(1)
						t.Step("clock", hashStr(c.name), uint64(body))
						names = append(names, fmt.Sprintf("%c %s, body %d", c.kind, c.name, body))
						answers[round] = append(answers[round], rec.render()+fmt.Sprint(err))
					}
				}
			}
			t.Outcome("answered twice")
			for i, a := range answers[0] {
				if answers[1][i] != a {
					t.Describe(func() any { return names[i] })
					return fmt.Sprintf("%s: answered %q, and then %q", names[i], a, answers[1][i])
				}
			}
			return ""
		}}}
	}
}

func init() {
	extend("P06", writerSpaces("ptr"))
	extend("I01", writerSpaces("ptr"))
	extend("R01", writerSpaces("r"))
	extend("I01", clockSpaces("ptr"))
	extend("P10", clockSpaces("ptr"))
}

package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/bits"
	"strings"
)

// judgeFault decides a negotiation in which calls of the environment failed.
func judgeFault(s *scenario, e *env, rec *Recorder, err error) string {
	f := e.f
	wrote := false
	for _, c := range f.calls {
		wrote = wrote || c == "Write"
	}
	if err != nil {
		// an error is either reported before anything has been sent, or it is
		// the failure to send.
		if wrote {
			if !f.hasFailed("Write") {
				return fmt.Sprintf("error %q although the response was sent", err)
			}
			if !errors.Is(err, f.cause()) {
				return fmt.Sprintf("error %q instead of the one of the writer", err)
			}
			return ""
		}
		if !rec.untouched() {
			return fmt.Sprintf("error %q after the response was started (calls %s)", err, rec.calls)
		}
		if len(f.failed) == 0 && s.outcome != "error" {
			return fmt.Sprintf("unexpected error %q", err)
		}
		if len(f.failed) > 0 && s.outcome != "error" && !errors.Is(err, f.cause()) {
			return fmt.Sprintf("error %q instead of the one of the environment", err)
		}
		return ""
	}
	if s.outcome == "error" {
		return "no error"
	}
	if f.hasFailed("Write") {
		return "the failure to send the response is not reported"
	}
	if len(f.failed) > 0 {
		return fmt.Sprintf("the failure of %q is not reported", f.failed)
	}
	if m := protocol(rec, nil); m != "" {
		return m
	}
	if m := consistent(rec); m != "" {
		return m
	}
	if len(f.failed) == 0 {
		if m := s.complete(rec, e, s.outcome); m != "" {
			return m
		}
	}
	// whatever was sent is complete, and not the one that cannot be serialized.
	if len(rec.body) == 0 {
		if wrote {
			return "empty body was sent"
		}
		return ""
	}
	all := append(append([]*Rep{}, e.reps...), e.lists...)
	last := ""
	for _, r := range all {
		if bytes.Equal(r.Body, rec.body) {
			last = fmt.Sprintf("rep%d", r.ID)
			if r.ID >= 100 {
				last = "list"
			}
			if rec.get("Content-Type") != r.CT || rec.get("Content-Language") != r.CL || rec.get("Content-Charset") != r.CC {
				return fmt.Sprintf("body of %s with the metadata of another one", last)
			}
		}
	}
	if last == "" && s.custom {
		return fmt.Sprintf("body %q is none of the representations", rec.body)
	}
	if f.from >= 0 || f.kind != "" {
		// persistent failures: the body cannot come from one that fails.
		if strings.HasPrefix(last, "rep") && f.kind == "rep" || last == "list" && f.kind == "list" {
			return fmt.Sprintf("response with %s, whose bytes are not available", last)
		}
	}
	return ""
}

// runFaults decides the scenario with the failures.
func runFaults(s *scenario, f *faults, t *T) string {
	t.Describe(func() any {
		return map[string]any{"scenario": s.name, "calls": f.calls, "failed": f.failed, "bytes accepted": f.short}
	})
	n, e := s.build(f, nil)
	rec, err := s.run(n, e)
	t.Exec(1)
	h := hashStr(s.name)
	for _, c := range f.calls {
		h = mix(h, hashStr(c))
		t.Step("call", h, uint64(len(f.failed)))
	}
	o := s.kind
	t.Outcome(fmt.Sprintf("%c err=%v sent=%v status=%d failed=%d", o, err != nil, !rec.untouched(), rec.status(), len(f.failed)))
	return judgeFault(s, e, rec, err)
}

// runPanics decides the scenario with calls of the environment that panic: the
// negotiation never ends as if nothing had happened.
func runPanics(s *scenario, f *faults, t *T) string {
	f.panics = true
	t.Describe(func() any {
		return map[string]any{"scenario": s.name, "calls": f.calls, "panicked": f.failed}
	})
	n, e := s.build(f, nil)
	var (
		err   error
		raise any
		rec   = newRecorder()
	)
	func() {
		defer func() { raise = recover() }()
		_, err = s.runOn(rec, n, e)
	}()
	t.Exec(1)
	t.Step("panics", hashStr(s.name), uint64(len(f.calls)))
	t.Outcome(fmt.Sprintf("%c panic=%v err=%v sent=%v", s.kind, raise != nil, err != nil, !rec.untouched()))
	if len(f.failed) == 0 {
		if raise != nil {
			return fmt.Sprintf("panic %v without one of the environment", raise)
		}
		return ""
	}
	if raise == nil && err == nil {
		return fmt.Sprintf("the panic of %q is neither passed on nor reported", f.failed)
	}
	if !f.hasFailed("Write") && !rec.untouched() {
		return fmt.Sprintf("the response was started ahead of the panic of %q", f.failed)
	}
	return ""
}

func init() {
	register(&Prop{
		ID:   "P07",
		Rule: "every negotiation scenario is run once to learn the calls that it makes to its environment (bytes of representations and lists, chooser, writer); then every single and every pair of calls fails, every suffix of the calls, and all calls of a kind, with every number of bytes accepted by the writer",
		Spaces: func(tier string) []*Space {
			ss := scenarios()
			// the number of calls of the longest scenario without failures.
			max := 0
			for _, s := range ss {
				n, e := s.build(noFaults(), nil)
				func() {
					defer func() { _ = recover() }()
					_, _ = s.run(n, e)
				}()
				if len(e.f.calls) > max {
					max = len(e.f.calls)
				}
			}
			max += 2
			if max > 40 {
				max = 40
			}
			exec := runFaults
			out := []*Space{
				{Name: "no failure", Dims: []int{len(ss)}, Run: func(d []int, t *T) string { return exec(ss[d[0]], noFaults(), t) }},
				{Name: "one failure", Dims: []int{len(ss), max, 4, 3}, Run: func(d []int, t *T) string {
					return exec(ss[d[0]], &faults{mask: 1 << uint(d[1]), from: -1, partial: d[3], short: []int{0, 1, 19, 1 << 20}[d[2]]}, t)
				}},
				{Name: "two failures", Dims: []int{len(ss), max, max, 2}, Run: func(d []int, t *T) string {
					if d[2] <= d[1] {
						return t.Skip()
					}
					return exec(ss[d[0]], &faults{mask: 1<<uint(d[1]) | 1<<uint(d[2]), from: -1, short: d[3] * 7}, t)
				}},
				{Name: "permanent failure", Dims: []int{len(ss), max}, Run: func(d []int, t *T) string {
					return exec(ss[d[0]], &faults{from: d[1]}, t)
				}},
				{Name: "one panic", Dims: []int{len(ss), max}, Run: func(d []int, t *T) string {
					return runPanics(ss[d[0]], &faults{mask: 1 << uint(d[1]), from: -1}, t)
				}},
				{Name: "panicking kind", Dims: []int{len(ss), 7}, Run: func(d []int, t *T) string {
					k := []string{"rep", "rep0", "rep1", "rep2", "list", "Choose", "Write"}[d[1]]
					return runPanics(ss[d[0]], &faults{from: -1, kind: k}, t)
				}},
				{Name: "failing kind", Dims: []int{len(ss), 7, 3}, Run: func(d []int, t *T) string {
					k := []string{"rep", "rep0", "rep1", "rep2", "list", "Choose", "Write"}[d[1]]
					return exec(ss[d[0]], &faults{from: -1, kind: k, short: []int{0, 3, 1 << 20}[d[2]]}, t)
				}},
			}
			// every subset of the first calls.
			width := 11
			if thorough(tier) {
				width = 16
			}
			out = append(out, &Space{Name: fmt.Sprintf("every subset of the first %d calls", width), Dims: []int{len(ss), 1 << width}, Run: func(d []int, t *T) string {
				if bits.OnesCount(uint(d[1])) < 2 {
					return t.Skip()
				}
				return exec(ss[d[0]], &faults{mask: uint64(d[1]), from: -1}, t)
			}})
			return out
		},
	})
}

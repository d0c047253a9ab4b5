package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/uber-go/tally"
)

// metrics is the total of the counters and timers by name, with the tags.
func metrics(s tally.TestScope) (map[string]int64, map[string]int, string) {
	c, tm := map[string]int64{}, map[string]int{}
	snap := s.Snapshot()
	bad := ""
	tagged := func(name string, tags map[string]string) string {
		return strings.TrimPrefix(name, "svc.") + "/" + tags["negotiator"]
	}
	for _, v := range snap.Counters() {
		if v.Tags()["app"] != "x" {
			bad = "tags of the scope are lost"
		}
		c[tagged(v.Name(), v.Tags())] += v.Value()
	}
	for _, v := range snap.Timers() {
		tm[tagged(v.Name(), v.Tags())] += len(v.Values())
	}
	return c, tm, bad
}

var kindName = map[byte]string{'p': "proactive", 't': "transparent", 'r': "reactive"}

// expectedCounter is the counter of an outcome, "" if there is none.
func expectedCounter(kind byte, outcome string) string {
	suffix := ""
	switch {
	case outcome == "error":
		suffix = "error"
	case kind == 'p' && outcome == "ok":
		suffix = "acceptable"
	case kind == 'p' && outcome == "notacceptable":
		suffix = "not_acceptable"
	case kind != 't' && outcome == "nocontent":
		suffix = "no_content"
	case kind == 'r' && outcome == "multiplechoices":
		suffix = "multiple_choices"
	default:
		return ""
	}
	return "negotiate." + suffix + "/" + kindName[kind]
}

func countOutcomes(steps []*scenario, fs []*faults, t *T) string {
	scope := tally.NewTestScope("svc", map[string]string{"app": "x"})
	wantC, wantT := map[string]int64{}, map[string]int{}
	var names []string
	for i, s := range steps {
		n, e := s.build(fs[i], scope)
		_, err := s.run(n, e)
		t.Exec(1)
		o := s.outcome
		if err != nil {
			o = "error"
		}
		names = append(names, s.name+" -> "+o)
		if k := expectedCounter(s.kind, o); k != "" {
			wantC[k]++
		}
		wantT["negotiate/"+kindName[s.kind]]++
		t.Outcome(fmt.Sprintf("%c %s", s.kind, o))
	}
	t.Describe(func() any { return names })
	gotC, gotT, bad := metrics(scope)
	if bad != "" {
		return bad
	}
	h := uint64(0)
	var ks []string
	for k, v := range gotC {
		if v != 0 {
			ks = append(ks, fmt.Sprint(k, v))
		}
		if v != wantC[k] {
			return fmt.Sprintf("counter %s is %d after %q, expected %d", k, v, names, wantC[k])
		}
	}
	for k, v := range wantC {
		if gotC[k] != v {
			return fmt.Sprintf("counter %s is %d after %q, expected %d", k, gotC[k], names, v)
		}
	}
	for k, v := range wantT {
		if gotT[k] != v {
			return fmt.Sprintf("timer %s has %d values after %q, expected %d", k, gotT[k], names, v)
		}
	}
	for k, v := range gotT {
		if wantT[k] != v {
			return fmt.Sprintf("timer %s has %d values after %q, expected %d", k, v, names, wantT[k])
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		h = mix(h, hashStr(k))
	}
	t.Step("counters", h)
	return ""
}

func init() {
	register(&Prop{
		ID:   "P08",
		Rule: "every sequence of negotiation scenarios up to the depth, and every single failure and failing kind in every scenario, shares one metric scope; afterwards every counter and timer has the value of the model",
		Spaces: func(tier string) []*Space {
			ss := scenarios()
			depth := 2
			if thorough(tier) {
				depth = 3
			}
			dims := make([]int, depth)
			for i := range dims {
				dims[i] = len(ss)
			}
			var bases []*scenario // without custom chooser variants: one per outcome
			seen := map[string]bool{}
			for _, s := range ss {
				k := fmt.Sprint(s.kind, s.outcome)
				if !seen[k] {
					seen[k] = true
					bases = append(bases, s)
				}
			}
			nb := len(bases)
			return []*Space{
				{Name: "one negotiation", Dims: []int{len(ss)}, Run: func(d []int, t *T) string {
					return countOutcomes([]*scenario{ss[d[0]]}, []*faults{noFaults()}, t)
				}},
				{Name: "one failure", Dims: []int{len(ss), 12}, Run: func(d []int, t *T) string {
					return countOutcomes([]*scenario{ss[d[0]]}, []*faults{{mask: 1 << uint(d[1]), from: -1}}, t)
				}},
				{Name: "failing kind", Dims: []int{len(ss), 6, len(ss)}, Run: func(d []int, t *T) string {
					k := []string{"rep", "rep0", "rep1", "list", "Choose", "Write"}[d[1]]
					return countOutcomes([]*scenario{ss[d[0]], ss[d[2]]}, []*faults{{from: -1, kind: k}, noFaults()}, t)
				}},
				{Name: fmt.Sprintf("sequences of %d", depth), Dims: dims, Run: func(d []int, t *T) string {
					var st []*scenario
					var fs []*faults
					for _, k := range d {
						st, fs = append(st, ss[k]), append(fs, noFaults())
					}
					return countOutcomes(st, fs, t)
				}},
				{Name: "sequences of 4 outcomes", Dims: []int{nb, nb, nb, nb}, Run: func(d []int, t *T) string {
					var st []*scenario
					var fs []*faults
					for _, k := range d {
						st, fs = append(st, bases[k]), append(fs, noFaults())
					}
					return countOutcomes(st, fs, t)
				}},
			}
		},
	})
}

//go:build sched

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"github.com/freerware/negotiator/verifmc/sched"
	"github.com/uber-go/tally"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// world is what the negotiations of a schedule share.
type world struct {
	pro, lax, tr, re, metered negotiator.Negotiator
	reps, gzipped, nested     []representation.Representation
}

// nesting is a representation whose serialization is the answer to another
// negotiation.
type nesting struct {
	Rep
	inner func() (*Recorder, error)
}

func (n *nesting) Bytes() ([]byte, error) {
	rec, err := n.inner()
	return []byte(rec.render()), err
}

type cheapWriter struct {
	w io.WriteCloser
	b []byte
}

func (c *cheapWriter) Write(b []byte) (int, error) { c.b = append(c.b, b...); return len(b), nil }

func (c *cheapWriter) Close() error {
	if _, err := c.w.Write([]byte{'('}); err != nil {
		return err
	}
	if _, err := c.w.Write(append(c.b, ')')); err != nil {
		return err
	}
	return nil
}

var cheapWriters = map[string]representation.EncodingWriterConstructor{
	"gzip":    func(w io.WriteCloser) (io.WriteCloser, error) { return &cheapWriter{w: w}, nil },
	"deflate": func(w io.WriteCloser) (io.WriteCloser, error) { return &cheapWriter{w: w}, nil },
}

// coded is a representation that the implementation serializes and encodes.
type coded struct {
	representation.Base
	Text string `json:"text"`
}

func (c *coded) Bytes() ([]byte, error)   { return c.Base.Bytes(map[string]string{"text": c.Text}) }
func (c *coded) FromBytes(b []byte) error { return c.Base.FromBytes(b, c) }

type devNull struct{}

func (devNull) Write(b []byte) (int, error) { return len(b), nil }
func (devNull) Sync() error                 { return nil }

func listIn(ct string) representation.ListConstructor {
	return func(reps ...representation.Representation) representation.Representation {
		l := &representation.List{}
		l.SetContentType(ct)
		l.SetContentCharset("utf-8")
		l.SetRepresentations(reps...)
		return l
	}
}

func newWorld() *world {
	w := &world{
		pro: proactive.New(),
		lax: proactive.New(proactive.DisableStrictMode(), proactive.DefaultRepresentation(listIn("application/xml"))),
		tr:  transparent.New(transparent.GuessSmallThreshold(100)),
		re:  reactive.New(reactive.Representation(listIn("application/yaml"))),
		metered: proactive.New(proactive.Scope(tally.NewTestScope("x", nil)), proactive.Logger(
			zap.New(zapcore.NewCore(zapcore.NewJSONEncoder(zap.NewProductionEncoderConfig()), devNull{}, zapcore.DebugLevel)))),
	}
	for _, r := range negotiatedReps() {
		w.reps = append(w.reps, r)
	}
	c := &coded{Text: "some text some text some text"}
	c.SetContentType("application/json")
	c.SetContentLanguage("en-GB")
	c.SetContentCharset("utf-8")
	c.SetContentEncoding([]string{"gzip", "deflate"})
	// the writers of the standard library are by far too slow for all schedules.
	c.SetEncodingWriters(cheapWriters)
	c.SetContentFeatures([]string{"tables", "!frames"})
	c.SetSourceQuality(1)
	c.SetContentLocation(mustURL("http://h.example/a/coded"))
	w.reps = append(w.reps, c)
	g := &coded{Text: "t"}
	g.SetContentType("application/json")
	g.SetContentEncoding([]string{"gzip"})
	g.SetSourceQuality(1)
	w.gzipped = []representation.Representation{g}
	// every kind of negotiation within every other one, and within its own.
	var within representation.Representation = &Rep{CT: "text/plain", SQ: 1, Loc: mustURL("http://h.example/a/v"), Body: []byte("innermost")}
	for _, n := range []negotiator.Negotiator{w.tr, w.pro, w.re, w.pro, w.tr, w.tr, w.pro} {
		n, in := n, within
		within = &nesting{Rep{CT: "text/plain", SQ: 1, Loc: mustURL("http://h.example/a/v")}, func() (*Recorder, error) {
			return negotiate(n, request(http.Header{"Negotiate": {"guess-small"}, "Accept": {"text/plain"}}, nil), false, in)
		}}
	}
	w.nested = []representation.Representation{within}
	return w
}

type sop struct {
	name   string
	n      func(w *world) negotiator.Negotiator
	header http.Header
	create bool
	count  int // of the representations, all if 0
}

func schedOps() []sop {
	h := func(kv ...string) http.Header {
		x := http.Header{}
		for i := 0; i < len(kv); i += 2 {
			x[kv[i]] = append(x[kv[i]], kv[i+1])
		}
		return x
	}
	pro := func(w *world) negotiator.Negotiator { return w.pro }
	lax := func(w *world) negotiator.Negotiator { return w.lax }
	tr := func(w *world) negotiator.Negotiator { return w.tr }
	re := func(w *world) negotiator.Negotiator { return w.re }
	met := func(w *world) negotiator.Negotiator { return w.metered }
	return []sop{
		{"choose", pro, h("Accept", "application/json;q=0.9, text/html;q=0.1, */*;q=0.05", "Accept-Language", "fr;q=0.2, en;q=0.9, *;q=0.1"), false, 0},
		{"choose by coding and charset", pro, h("Accept-Encoding", "gzip;q=0.3, deflate, identity;q=0.1", "Accept-Charset", "iso-8859-1, *;q=0.5", "Accept", "text/*"), true, 0},
		{"transparent choice", tr, h("Negotiate", "1.0", "Accept", "text/html;q=0.9, application/json;q=0.1", "Accept-Language", "en-us, de;q=0.9", "Accept-Charset", "utf-8, us-ascii", "Accept-Features", "tables, dpi=72, !frames"), false, 0},
		{"list", re, nil, false, 0},
		{"406", pro, h("Accept", "image/png, text/x;q=0.3", "Accept-Charset", "utf-16"), false, 2},
		{"not strict", lax, h("Accept", "image/png", "Accept-Language", "ja", "Accept-Charset", "us-ascii, *;q=0"), false, 0},
		{"transparent guess-small", tr, h("Negotiate", "trans, guess-small", "Accept", "text/plain;q=0.2, text/html;level=2", "Accept-Language", "de"), false, 4},
		{"default choose", func(w *world) negotiator.Negotiator { return proactive.Default }, h("Accept", "text/plain;q=0.5, application/json;q=0.4", "Accept-Language", "en-gb, fr;q=0.2"), false, 0},
		{"transparent default list", func(w *world) negotiator.Negotiator { return transparent.Default }, h("Negotiate", "trans, vlist"), false, 3},
		{"reactive default", func(w *world) negotiator.Negotiator { return reactive.Default }, nil, false, 1},
		{"metered", met, h("Accept", "text/html;level=2;q=0.4, text/html;q=0.7", "Accept-Language", "de, *;q=0.2"), false, 3},
		{"error", pro, h("Accept-Charset", "utf-8;q=2"), false, 2},
		{"no headers", pro, nil, false, 0},
		{"transparent error", tr, h("Negotiate", "*", "Accept-Features", "a=;;"), false, 2},
		{"metered 406", met, h("Accept", "application/xml;q=0.1, image/png"), false, 1},
		{"empty", pro, nil, false, -1},
		{"gzip", pro, nil, false, -2},
		{"nested", pro, nil, false, -3},
	}
}

func (o *sop) run(w *world) string {
	reps := w.reps
	if o.count == -3 {
		reps = w.nested
	} else if o.count == -2 {
		reps = w.gzipped
	} else if o.count < 0 {
		reps = nil
	} else if o.count > 0 {
		reps = reps[:o.count:o.count]
	}
	rec, err := negotiate(o.n(w), request(o.header.Clone(), nil), o.create, reps...)
	return rec.render() + fmt.Sprint(err)
}

// schedule is one execution.
type schedule struct {
	Phase string         `json:"phase"`
	Ops   []int          `json:"ops"`
	Names []string       `json:"negotiations"`
	Plan  []sched.Switch `json:"switches"`
	Order []int          `json:"order"`
	First int            `json:"first"`
	// Repeat is the number of times that the second negotiation takes place.
	Repeat int `json:"repeat,omitempty"`
}

type schedStats struct {
	Schedules uint64            `json:"schedules"`
	Steps     uint64            `json:"steps"`
	Planned   uint64            `json:"planned"`
	Taken     uint64            `json:"taken"`
	Pairs     map[string]uint64 `json:"pairs"`
	Outcomes  map[string]uint64 `json:"outcomes"`
	Max       []int             `json:"max_points"`
	Violation string            `json:"violation"`
	Schedule  *schedule         `json:"schedule"`
	Complete  bool              `json:"complete"`
}

// solo runs one negotiation alone.
func solo(o *sop) (string, int, int, string) {
	var got string
	w := newWorld()
	r, _ := sched.Run([]func(){func() { got = o.run(w) }}, nil, []int{0}, 0)
	return got, r.Fine[0], r.Coarse[0], r.Problem
}

// execute runs a schedule in a new world and compares all answers.
func execute(s *schedule, ops []sop, golden []string) (string, sched.Result) {
	w := newWorld()
	got := make([]string, len(s.Ops))
	fns := make([]func(), len(s.Ops))
	for i, k := range s.Ops {
		i, o := i, &ops[k]
		fns[i] = func() { got[i] = o.run(w) }
		if i == 1 && s.Repeat > 1 {
			fns[i] = func() {
				for j := 0; j < s.Repeat; j++ {
					if got[i] = o.run(w); got[i] != golden[s.Ops[1]] {
						return
					}
				}
			}
		}
	}
	r, _ := sched.Run(fns, s.Plan, s.Order, s.First)
	if r.Problem != "" {
		return r.Problem, r
	}
	for i, k := range s.Ops {
		if got[i] != golden[k] {
			return fmt.Sprintf("%q is answered %q instead of %q", ops[k].name, got[i], golden[k]), r
		}
	}
	return "", r
}

// enumerate calls f with all schedules of the phase, until it returns false.
// fine and coarse are the numbers of yield points of every negotiation.
func enumerate(phase, tier string, ops []sop, fine, coarse []int, f func(s *schedule) bool) {
	n := len(ops)
	th := thorough(tier)
	switch phase {
	case "one preemption", "one preemption, race detector", "cold start", "cold start, race detector":
		cold := strings.HasPrefix(phase, "cold")
		race := strings.HasSuffix(phase, "detector")
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				if cold && !th && (a > 7 || b > 7) {
					continue
				}
				// an unordered pair of accesses is found whichever of the
				// two negotiations is suspended after its access.
				if race && (a < b || !th && a > 11) {
					continue
				}
				max, step := fine[a], 1
				if cold {
					max = coarse[a]
					// the points are spread over the function entries.
					k := 12
					if race {
						k = 3
					}
					if th {
						k *= 6
					}
					step = max/k + 1
				}
				for i := 0; i <= max; i += step {
					s := &schedule{Phase: phase, Ops: []int{a, b}, Order: []int{1, 0}, First: 0}
					if i == 0 {
						s.Order = []int{0, 1}
						if a == b || a > b {
							s.First = 1
						}
					} else {
						s.Plan = []sched.Switch{{From: 0, To: 1, At: i, Coarse: cold}}
					}
					if !f(s) {
						return
					}
				}
			}
		}
	case "two preemptions":
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				if !th && (a > 7 || b > 7) {
					continue
				}
				fa, fb := coarse[a], coarse[b]
				sa, sb := fa/60+1, fb/60+1
				if th {
					sa, sb = 1, 1
				}
				for i := 1; i <= fa; i += sa {
					for j := 1; j <= fb; j += sb {
						if !f(&schedule{Phase: phase, Ops: []int{a, b}, Order: []int{0, 1}, First: 0,
							Plan: []sched.Switch{{From: 0, To: 1, At: i, Coarse: true}, {From: 1, To: 0, At: j, Coarse: true}}}) {
							return
						}
					}
				}
			}
		}
	case "two preemptions at statements":
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				for i := 1; i <= fine[a]; i++ {
					for j := 1; j <= fine[b]; j++ {
						if !f(&schedule{Phase: phase, Ops: []int{a, b}, Order: []int{0, 1}, First: 0,
							Plan: []sched.Switch{{From: 0, To: 1, At: i}, {From: 1, To: 0, At: j}}}) {
							return
						}
					}
				}
			}
		}
	case "one preemption, many negotiations meanwhile":
		k, repeat, m := 20, 270, 3
		if th {
			k, repeat, m = 60, 300, n
		}
		for a := 0; a < n; a++ {
			for b := -1; b < m; b++ {
				y := b
				if b == -1 {
					y = a
				}
				for i := 1; i <= coarse[a]; i += coarse[a]/k + 1 {
					if !f(&schedule{Phase: phase, Ops: []int{a, y}, Order: []int{1, 0}, First: 0, Repeat: repeat,
						Plan: []sched.Switch{{From: 0, To: 1, At: i, Coarse: true}}}) {
						return
					}
				}
			}
		}
	case "three negotiations":
		m, k := 3, 30
		if th {
			m, k = 6, 120
		}
		for a := 0; a < m; a++ {
			for b := 0; b < m; b++ {
				for c := 0; c < m; c++ {
					fa, fb := coarse[a], coarse[b]
					for i := 1; i <= fa; i += fa/k + 1 {
						for j := 1; j <= fb; j += fb/k + 1 {
							for _, o := range [][]int{{0, 1, 2}, {1, 0, 2}} {
								if !f(&schedule{Phase: phase, Ops: []int{a, b, c}, Order: o, First: 0,
									Plan: []sched.Switch{{From: 0, To: 1, At: i, Coarse: true}, {From: 1, To: 2, At: j, Coarse: true}}}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

// measure provides the answers and yield points of every negotiation alone.
func measure(ops []sop) (golden []string, fine, coarse []int, problem string) {
	for i := range ops {
		// once more, so that whatever is initialized once is.
		solo(&ops[i])
		g, f, c, p := solo(&ops[i])
		if p != "" {
			problem = fmt.Sprintf("%q alone: %s", ops[i].name, p)
		}
		golden, fine, coarse = append(golden, g), append(fine, f), append(coarse, c)
	}
	return
}

func (s *schedule) names(ops []sop) *schedule {
	s.Names = nil
	for _, k := range s.Ops {
		s.Names = append(s.Names, ops[k].name)
	}
	return s
}

// worker explores its share of a phase, and prints what it covered.
func schedWorker(arg string) {
	runtime.GOMAXPROCS(1)
	var a struct {
		Phase, Tier string
		Shard, Of   int
		Deadline    int64
		Current     string
		Cold        *schedule
		Golden      [][]byte
	}
	must(json.Unmarshal([]byte(arg), &a))
	ops := schedOps()
	st := schedStats{Pairs: map[string]uint64{}, Outcomes: map[string]uint64{}, Complete: true}
	out := func() {
		b, err := json.Marshal(st)
		must(err)
		os.Stdout.Write(b)
	}
	if a.Cold != nil {
		// nothing of the implementation has run in this process.
		var golden []string
		for _, g := range a.Golden {
			golden = append(golden, string(g))
		}
		msg, r := execute(a.Cold, ops, golden)
		st.Schedules, st.Taken, st.Violation = 1, uint64(r.Taken), msg
		for _, f := range r.Fine {
			st.Steps += uint64(f)
		}
		if msg != "" {
			st.Schedule = a.Cold.names(ops)
		}
		out()
		return
	}
	golden, fine, coarse, problem := measure(ops)
	st.Max = fine
	if problem != "" {
		st.Violation, st.Schedule = problem, &schedule{}
		out()
		return
	}
	var cur *os.File
	if a.Current != "" {
		f, err := os.Create(a.Current)
		must(err)
		cur = f
	}
	i := 0
	enumerate(a.Phase, a.Tier, ops, fine, coarse, func(s *schedule) bool {
		i++
		if i%a.Of != a.Shard {
			return true
		}
		st.Planned++
		if st.Planned%32 == 0 && time.Now().UnixNano() > a.Deadline {
			st.Complete = false
			return false
		}
		if cur != nil {
			b, _ := json.Marshal(s.names(ops))
			_, err := cur.WriteAt(append(b, bytes.Repeat([]byte(" "), 400)...), 0)
			must(err)
		}
		msg, r := execute(s, ops, golden)
		st.Schedules++
		st.Taken += uint64(r.Taken)
		for _, f := range r.Fine {
			st.Steps += uint64(f)
		}
		st.Pairs[fmt.Sprint(s.Ops)]++
		st.Outcomes[ops[s.Ops[0]].name]++
		if msg != "" {
			st.Violation, st.Schedule = msg, s.names(ops)
			return false
		}
		return true
	})
	out()
}

// schedMain decides P11.
func schedMain(tier, verif, replay string) int {
	ops := schedOps()
	if replay != "" {
		b, err := os.ReadFile(replay)
		must(err)
		var r struct {
			Case schedule `json:"case"`
		}
		must(json.Unmarshal(b, &r))
		runtime.GOMAXPROCS(1)
		golden, _, _, _ := measure(ops)
		msg, _ := execute(&r.Case, ops, golden)
		if msg == "" {
			fmt.Println("holds")
			return 0
		}
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=P11 replay=%s\n", replay)
		return 1
	}
	start := time.Now()
	exe, err := os.Executable()
	must(err)
	raceExe := filepath.Join(filepath.Dir(exe), "mcrace")
	if _, err := os.Stat(raceExe); err != nil {
		raceExe = ""
	}
	tmp, err := os.MkdirTemp("", "p11")
	must(err)
	defer os.RemoveAll(tmp)
	type phase struct {
		name   string
		budget time.Duration
	}
	phases := []phase{{"one preemption", 60 * time.Second}, {"two preemptions", 60 * time.Second}, {"three negotiations", 60 * time.Second}, {"one preemption, many negotiations meanwhile", 60 * time.Second}, {"cold start", 60 * time.Second}}
	if raceExe != "" {
		phases = append(phases, phase{"one preemption, race detector", 90 * time.Second}, phase{"cold start, race detector", 60 * time.Second})
	}
	if thorough(tier) {
		for i := range phases {
			phases[i].budget = 100 * time.Second
		}
		phases = append(phases, phase{"two preemptions at statements", 240 * time.Second})
	}
	golden, fine, coarse, problem := measure(ops)
	total := schedStats{Outcomes: map[string]uint64{}}
	var spaces []map[string]any
	complete := true
	var bad *schedStats
	if problem != "" {
		bad = &schedStats{Violation: problem, Schedule: &schedule{}}
	}
	states := 0
	for _, ph := range phases {
		if bad != nil {
			break
		}
		p0 := time.Now()
		deadline := time.Now().Add(ph.budget)
		bin := exe
		if strings.HasSuffix(ph.name, "detector") {
			bin = raceExe
		}
		var raw [][]byte
		for _, g := range golden {
			raw = append(raw, []byte(g))
		}
		jobs := make(chan map[string]any, 64)
		go func() {
			defer close(jobs)
			if !strings.HasPrefix(ph.name, "cold") {
				of := runtime.NumCPU() * 2
				for k := 0; k < of; k++ {
					jobs <- map[string]any{"Phase": ph.name, "Tier": tier, "Shard": k, "Of": of, "Deadline": deadline.UnixNano(), "Current": filepath.Join(tmp, "cur"+strconv.Itoa(k))}
				}
				return
			}
			enumerate(ph.name, tier, ops, fine, coarse, func(s *schedule) bool {
				jobs <- map[string]any{"Cold": s, "Golden": raw}
				return true
			})
		}()
		var (
			mu  sync.Mutex
			wg  sync.WaitGroup
			sum schedStats
			all = true
		)
		for k := 0; k < runtime.NumCPU(); k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range jobs {
					mu.Lock()
					stop := bad != nil
					mu.Unlock()
					if stop {
						continue
					}
					if time.Now().After(deadline) && j["Cold"] != nil {
						mu.Lock()
						all = false
						mu.Unlock()
						continue
					}
					st := runSchedWorker(bin, j, time.Until(deadline)+90*time.Second)
					mu.Lock()
					sum.Schedules += st.Schedules
					sum.Steps += st.Steps
					sum.Taken += st.Taken
					all = all && st.Complete
					for k, v := range st.Outcomes {
						total.Outcomes[k] += v
					}
					if st.Violation != "" && bad == nil {
						if st.Schedule != nil && st.Schedule.Phase == "" {
							st.Schedule.Phase = ph.name
						}
						bad = st
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		total.Schedules += sum.Schedules
		total.Steps += sum.Steps
		states += int(sum.Taken)
		complete = complete && all
		spaces = append(spaces, map[string]any{"space": ph.name, "size": sum.Schedules, "explored": sum.Schedules, "exhaustive": all && bad == nil, "preemptions_taken": sum.Taken, "yield_points_passed": sum.Steps, "seconds": round3(time.Since(p0).Seconds())})
	}
	nv := 0
	if bad != nil {
		nv = 1
	}
	instr, _ := os.ReadFile(filepath.Join(filepath.Dir(exe), "instrument.txt"))
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	points := map[string]any{}
	for i := range ops {
		points[ops[i].name] = map[string]int{"statements": at(fine, i), "function entries": at(coarse, i)}
	}
	ev := map[string]any{
		"property": "P11", "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": total.Steps, "traces_validated_against_impl": total.Schedules,
			"schedules": total.Schedules, "spaces": spaces, "outcomes": total.Outcomes,
			"instrumentation": strings.TrimSpace(string(instr)), "yield_points": points, "race_detector": raceExe != "",
			"samples":    []any{(&schedule{Phase: "one preemption", Ops: []int{0, 2}, Plan: []sched.Switch{{From: 0, To: 1, At: 7}}, Order: []int{1, 0}}).names(ops)},
			"rule":       "all ordered pairs of negotiations that share negotiators and representations; states are the points at which one is suspended in favour of another, transitions the yield points passed; every answer has to be the one that the negotiation gets alone",
			"exhaustive": complete && bad == nil,
		},
		"assumptions": []string{"Preemptions happen between statements of the instrumented packages; third party packages run atomically between two yield points.",
			"Unordered memory accesses within statements are found by the race detector on every schedule with one preemption, as the hand over of control is invisible to it."},
		"wall_s": round3(time.Since(start).Seconds()), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	must(os.WriteFile(filepath.Join(verif, "evidence", "P11.json"), append(b, '\n'), 0o644))
	fmt.Printf("P11 %s: %d schedules, %d yield points passed, %d preemptions, complete=%v, %.1fs\n", tier, total.Schedules, total.Steps, states, complete, time.Since(start).Seconds())
	if bad != nil {
		report(&Prop{ID: "P11"}, violation{space: bad.Schedule.Phase, msg: bad.Violation, desc: bad.Schedule})
		return 1
	}
	return 0
}

func at(x []int, i int) int {
	if i < len(x) {
		return x[i]
	}
	return 0
}

// runSchedWorker runs a worker process.
func runSchedWorker(bin string, job map[string]any, limit time.Duration) *schedStats {
	arg, err := json.Marshal(job)
	must(err)
	cmd := exec.Command(bin)
	cmd.Env = append(os.Environ(), "MC_SCHED="+string(arg), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	must(cmd.Start())
	timer := time.AfterFunc(limit, func() { _ = cmd.Process.Kill() })
	err = cmd.Wait()
	timed := !timer.Stop()
	st := &schedStats{}
	if err == nil {
		must(json.Unmarshal(out.Bytes(), st))
		if job["Cold"] != nil {
			st.Complete = true
		}
		return st
	}
	s, _ := job["Cold"].(*schedule)
	if c, ok := job["Current"].(string); ok && s == nil {
		s = &schedule{}
		if b, err := os.ReadFile(c); err == nil {
			_ = json.NewDecoder(bytes.NewReader(b)).Decode(s)
		}
	}
	if s == nil {
		s = &schedule{}
	}
	text := errOut.String()
	switch {
	case timed:
		must(fmt.Errorf("worker timed out: %s", arg))
	case !strings.Contains(text, "/repo/") && !strings.Contains(text, "freerware/negotiator/proactive") && !strings.Contains(text, "negotiator/internal") && !strings.Contains(text, "negotiator/representation") && !strings.Contains(text, "negotiator/transparent") && !strings.Contains(text, "negotiator/reactive"):
		must(fmt.Errorf("worker failed: %v %s", err, text))
	}
	if len(text) > 3000 {
		text = text[:3000]
	}
	return &schedStats{Schedules: 1, Violation: text, Schedule: s}
}

func init() {
	mains["P11"] = schedMain
	workers = schedWorker
}

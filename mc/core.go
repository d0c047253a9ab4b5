package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Space is a finite product of dimensions. Every element is one execution of
// the implementation, decided against the reference model by Run.
type Space struct {
	Name string
	Dims []int
	// Run executes the element with the given coordinates, and provides a
	// description of the violation, or "".
	Run func(d []int, t *T) string
	// Serial spaces are explored by one worker.
	Serial bool
	// Slow spaces consult the clock for every element.
	Slow bool
}

func (s *Space) size() uint64 {
	n := uint64(1)
	for _, d := range s.Dims {
		n *= uint64(d)
	}
	return n
}

func (s *Space) digits(i uint64, d []int) {
	for k := len(s.Dims) - 1; k >= 0; k-- {
		d[k] = int(i % uint64(s.Dims[k]))
		i /= uint64(s.Dims[k])
	}
}

// Prop is a property and the spaces that decide it.
type Prop struct {
	ID     string
	Spaces func(tier string) []*Space
	// Rule describes the model and the alphabet.
	Rule        string
	Assumptions []string
}

// T collects what one worker covers.
type T struct {
	states      map[uint64]struct{}
	capped      bool
	transitions uint64
	executions  uint64
	skipped     uint64
	outcomes    map[string]uint64
	desc        func() any
	key         uint64
	skip        bool
	lastOutcome string
}

const stateCap = 4 << 20

func newT() *T {
	return &T{states: map[uint64]struct{}{}, outcomes: map[string]uint64{}}
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Step records that the reference model moved to the state identified by the
// provided values.
func (t *T) Step(stage string, vals ...uint64) {
	h := hashStr(stage)
	for _, v := range vals {
		h = mix(h, v)
	}
	t.transitions++
	if len(t.states) < stateCap {
		t.states[h] = struct{}{}
	} else {
		t.capped = true
	}
}

// Outcome counts an observed outcome.
func (t *T) Outcome(o string) { t.outcomes[o]++; t.lastOutcome = o }

// Exec counts executions of the implementation.
func (t *T) Exec(n int) { t.executions += uint64(n) }

// Skip tells that the element is outside of the model.
func (t *T) Skip() string { t.skip = true; return "" }

// Describe provides the readable form of the element.
func (t *T) Describe(f func() any) { t.desc = f }

type violation struct {
	space string
	si    int
	index uint64
	msg   string
	desc  any
}

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Space    string `json:"space"`
	Index    uint64 `json:"index"`
	Message  string `json:"message"`
	Case     any    `json:"case,omitempty"`
}

func runOne(s *Space, i uint64, t *T) (msg string) {
	d := make([]int, len(s.Dims))
	s.digits(i, d)
	t.desc = nil
	t.skip = false
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				fmt.Fprintf(os.Stderr, "harness error in %s[%d]: %v\n", s.Name, i, string(he))
				os.Exit(3)
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return s.Run(d, t)
}

type harnessError string

func must(err error) {
	if err != nil {
		panic(harnessError(err.Error()))
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " <- ")
}

var props = map[string]*Prop{}

// mains decide properties on their own; workers is the main function of the
// processes they start.
var (
	mains   = map[string]func(tier, verif, replay string) int{}
	workers func(arg string)
)

func register(p *Prop) { props[p.ID] = p }

type known struct{ property, key string }

func loadKnown(path string) (ks []known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="), " ", 3)
		if len(f) >= 2 && strings.HasPrefix(f[1], "case=") {
			ks = append(ks, known{f[0], strings.TrimPrefix(f[1], "case=")})
		}
	}
	return
}

func main() {
	id := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	replay := flag.String("replay", "", "replay file")
	verif := flag.String("verif", "/verif", "verif directory")
	budget := flag.Duration("budget", 0, "time budget")
	only := flag.String("space", "", "only this space")
	list := flag.Bool("list", false, "list spaces")
	flag.Parse()

	if k := os.Getenv("MC_FRESH"); k != "" {
		freshMain(k)
		return
	}
	if f := os.Getenv("MC_CPUPROFILE"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			_ = pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if a := os.Getenv("MC_SCHED"); a != "" && workers != nil {
		workers(a)
		return
	}
	verifDir, curTier = *verif, *tier
	if f, ok := mains[*id]; ok {
		os.Exit(f(*tier, *verif, *replay))
	}
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	if *replay != "" {
		os.Exit(doReplay(p, *replay))
	}
	if *budget == 0 {
		*budget = 5 * time.Minute
		if *tier == "thorough" {
			*budget = 12 * time.Minute
		}
	}
	spaces := spacesOf(p, *tier)
	if *list {
		for _, s := range spaces {
			fmt.Println(s.Name, s.Dims, s.size())
		}
		return
	}
	start := time.Now()
	deadline := start.Add(*budget)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)

	total := newT()
	var (
		viol     *violation
		covered  []map[string]any
		complete = true
		samples  []any
		kn       = loadKnown(filepath.Join(*verif, "known-findings.txt"))
		knHit    = map[string]string{}
	)
	for si, s := range spaces {
		if *only != "" && s.Name != *only {
			continue
		}
		s0 := time.Now()
		n := s.size()
		v, done, smp := explore(p, si, s, deadline, total, kn, knHit)
		samples = append(samples, smp...)
		covered = append(covered, map[string]any{
			"space": s.Name, "dimensions": s.Dims, "size": n, "explored": done,
			"exhaustive": done == n, "seconds": round3(time.Since(s0).Seconds()),
		})
		if done != n {
			complete = false
		}
		if v != nil {
			viol = v
			break
		}
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        len(total.states),
			"transitions":                   total.transitions,
			"traces_validated_against_impl": total.executions,
			"outside_model_skipped":         total.skipped,
			"state_count_capped":            total.capped,
			"distinct_outcomes":             len(total.outcomes),
			"outcomes":                      topOutcomes(total.outcomes, 40),
			"samples":                       samples,
			"spaces":                        covered,
			"rule":                          p.Rule,
			"exhaustive":                    complete && viol == nil,
		},
		"assumptions": append([]string{}, p.Assumptions...),
		"wall_s":      round3(time.Since(start).Seconds()),
		"violations":  nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var keys []string
	for k := range knHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", p.ID, k, oneLine(knHit[k]))
	}
	fmt.Printf("%s %s: %d executions, %d model states, %d transitions, %d outcomes, complete=%v, %.1fs\n",
		p.ID, *tier, total.executions, len(total.states), total.transitions, len(total.outcomes), complete, time.Since(start).Seconds())
	if viol != nil {
		report(p, *viol)
		os.Exit(1)
	}
}

func oneLine(s string) string { return strings.ReplaceAll(s, "\n", " | ") }

func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }

func topOutcomes(m map[string]uint64, n int) map[string]uint64 {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if m[ks[i]] != m[ks[j]] {
			return m[ks[i]] > m[ks[j]]
		}
		return ks[i] < ks[j]
	})
	if len(ks) > n {
		ks = ks[:n]
	}
	r := map[string]uint64{}
	for _, k := range ks {
		r[k] = m[k]
	}
	return r
}

// watch is what a worker is doing.
type watch struct {
	since int64
	index uint64
	_     [48]byte
}

// hangLimit is far beyond the duration of 64 executions.
const hangLimit = 100 * time.Second

// hang reports an execution that does not end.
func hang(p *Prop, s *Space, i uint64) {
	var desc any
	t := newT()
	done := make(chan struct{})
	go func() { runOne(s, i, t); close(done) }()
	select {
	case <-done:
		fmt.Fprintf(os.Stderr, "note: %s[%d] was slow\n", s.Name, i)
		return
	case <-time.After(20 * time.Second):
	}
	if t.desc != nil {
		desc = t.desc()
	}
	report(p, violation{space: s.Name, index: i, msg: fmt.Sprintf("%s[%d]: does not end", s.Name, i), desc: desc})
	os.Exit(1)
}

func report(p *Prop, v violation) {
	dir := filepath.Join(verifDir, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, p.ID+".json")
	rb, err := json.MarshalIndent(replayFile{p.ID, curTier, v.space, v.index, v.msg, v.desc}, "", " ")
	if err != nil {
		rb, _ = json.MarshalIndent(replayFile{p.ID, curTier, v.space, v.index, v.msg, fmt.Sprint(v.desc)}, "", " ")
	}
	_ = os.WriteFile(path, append(rb, '\n'), 0o644)
	fmt.Println(v.msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
}

var verifDir, curTier string

func explore(p *Prop, si int, s *Space, deadline time.Time, total *T, kn []known, knHit map[string]string) (*violation, uint64, []any) {
	n := s.size()
	if n == 0 {
		return nil, 0, nil
	}
	workers := runtime.GOMAXPROCS(0)
	if s.Serial {
		workers = 1
	}
	chunk := n/uint64(workers*64) + 1
	if chunk > 4096 {
		chunk = 4096
	}
	var (
		next uint64
		best = ^uint64(0)
		mu   sync.Mutex
		viol *violation
		done uint64
		wg   sync.WaitGroup
		ts   = make([]*T, workers)
	)
	var watches = make([]watch, workers)
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(2 * time.Second):
			}
			for k := range watches {
				since := atomic.LoadInt64(&watches[k].since)
				if since != 0 && time.Since(time.Unix(0, since)) > hangLimit {
					i := atomic.LoadUint64(&watches[k].index)
					hang(p, s, i)
				}
			}
		}
	}()
	for w := 0; w < workers; w++ {
		w := w
		t := newT()
		ts[w] = t
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				lo := atomic.AddUint64(&next, chunk) - chunk
				if lo >= n || lo > atomic.LoadUint64(&best) || time.Now().After(deadline) {
					return
				}
				hi := lo + chunk
				if hi > n {
					hi = n
				}
				for i := lo; i < hi; i++ {
					atomic.StoreUint64(&watches[w].index, i)
					if i%64 == 0 || i == lo || s.Slow {
						atomic.StoreInt64(&watches[w].since, time.Now().UnixNano())
					}
					if s.Slow && time.Now().After(deadline) {
						hi = i
						break
					}
					msg := runOne(s, i, t)
					if t.skip {
						t.skipped++
					}
					if msg == "" {
						continue
					}
					key := fmt.Sprintf("%s[%d]", s.Name, i)
					isKnown := false
					for _, k := range kn {
						if k.property == p.ID && k.key == key {
							isKnown = true
						}
					}
					if isKnown {
						mu.Lock()
						knHit[key] = msg
						mu.Unlock()
						continue
					}
					// believe only what is reproducible.
					again := 0
					for k := 0; k < 5; k++ {
						if runOne(s, i, newT()) != "" {
							again++
						}
					}
					if again != 5 {
						fmt.Fprintf(os.Stderr, "note: %s[%d] violated 1+%d/5 times: %s\n", s.Name, i, again, msg)
						if again == 0 {
							continue
						}
					}
					mu.Lock()
					if i < best {
						atomic.StoreUint64(&best, i)
						t2 := newT()
						runOne(s, i, t2)
						var desc any
						if t2.desc != nil {
							desc = t2.desc()
						}
						viol = &violation{s.Name, si, i, fmt.Sprintf("%s[%d]: %s", s.Name, i, msg), desc}
					}
					mu.Unlock()
					return
				}
				atomic.StoreInt64(&watches[w].since, 0)
				atomic.AddUint64(&done, hi-lo)
			}
		}()
	}
	wg.Wait()
	for _, t := range ts {
		for k := range t.states {
			total.states[k] = struct{}{}
		}
		total.transitions += t.transitions
		total.executions += t.executions
		total.skipped += t.skipped
		total.capped = total.capped || t.capped
		for k, v := range t.outcomes {
			total.outcomes[k] += v
		}
	}
	var samples []any
	if viol == nil {
		for _, i := range []uint64{n / 3, n - 1} {
			t := newT()
			runOne(s, i, t)
			if t.desc != nil && !t.skip {
				samples = append(samples, map[string]any{"space": s.Name, "index": i, "case": t.desc(), "outcome": t.lastOutcome})
			}
		}
		if len(samples) > 1 {
			samples = samples[:1]
		}
	}
	return viol, done, samples
}

// spacesOf provides the spaces with unique names.
func spacesOf(p *Prop, tier string) []*Space {
	ss := p.Spaces(tier)
	for _, f := range extensions[p.ID] {
		ss = append(ss, f(tier)...)
	}
	seen := map[string]int{}
	for _, s := range ss {
		seen[s.Name]++
		if k := seen[s.Name]; k > 1 {
			s.Name = fmt.Sprintf("%s #%d", s.Name, k)
		}
	}
	return ss
}

func doReplay(p *Prop, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range spacesOf(p, r.Tier) {
		if s.Name != r.Space {
			continue
		}
		t := newT()
		msg := runOne(s, r.Index, t)
		if t.desc != nil {
			d, _ := json.MarshalIndent(t.desc(), "", " ")
			fmt.Println(string(d))
		}
		if msg == "" {
			fmt.Println("holds")
			return 0
		}
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	fmt.Fprintln(os.Stderr, "no such space", r.Space)
	return 2
}

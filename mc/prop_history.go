package main

import (
	"bytes"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// op is one negotiation of a history.
type op struct {
	name   string
	n      func() negotiator.Negotiator
	header http.Header
	reps   func() []*Rep
	create bool
	// panics tells where the environment panics: w(riter), or not at all.
	panics byte
}

func negotiatedReps() []*Rep {
	var out []*Rep
	for i := 0; i < 4; i++ {
		r := plain(i)
		r.CT = []string{"text/html;level=1", "application/json", "text/html;level=2", "text/plain"}[i]
		r.CL = []string{"en-US", "fr", "de", ""}[i]
		r.CC = []string{"utf-8", "iso-8859-1", "us-ascii", ""}[i]
		r.CE = [][]string{{"gzip"}, {"deflate", "gzip"}, nil, {"identity"}}[i]
		r.CF = [][]string{{"tables"}, nil, {"dpi=[70-80];+1.2", "!frames"}, nil}[i]
		r.SQ = []float32{0.9, 1, 0.8, 0.5}[i]
		r.Loc = mustURL(fmt.Sprintf("http://h.example/a/v%d", i))
		r.Body = bodyFor(i, 30-i)
		out = append(out, r)
	}
	return out
}

func historyOps() []*op {
	h := func(kv ...string) http.Header {
		x := http.Header{}
		for i := 0; i < len(kv); i += 2 {
			x[kv[i]] = append(x[kv[i]], kv[i+1])
		}
		return x
	}
	pro, lax := proactive.New(), proactive.New(proactive.DisableStrictMode())
	tr, re := transparent.New(), reactive.New()
	p := func() negotiator.Negotiator { return pro }
	reps := negotiatedReps
	rev := func() []*Rep {
		r := negotiatedReps()
		return []*Rep{r[3], r[2], r[1], r[0]}
	}
	one := func() []*Rep { return negotiatedReps()[1:2] }
	empty := func() []*Rep { return nil }
	lacking := func() []*Rep {
		r := plain(0)
		r.CF = []string{"!tables", "frames;+1.1"}
		return []*Rep{r}
	}
	// the other values of the headers, one after another.
	var more []*op
	add := func(n negotiator.Negotiator, key string, values ...string) {
		for _, v := range values {
			hh := h(key, v)
			if _, ok := n.(transparent.Negotiator); ok && key != "Negotiate" {
				hh["Negotiate"] = []string{"1.0"}
			}
			more = append(more, &op{fmt.Sprintf("%s: %s", key, v), func() negotiator.Negotiator { return n }, hh, reps, false, 0})
		}
	}
	add(pro, "Accept", "text/html", "text/*;q=0.5, */*;q=0.1", "text/html;level=1;q=0.4, text/html;level=2;q=0.7", "*/*;q=0", "text/plain, application/yaml")
	add(pro, "Accept-Language", "en", "fr-CA, de;q=0.3", "*;q=0, de", "xx-yy-", "de-DE, *")
	add(pro, "Accept-Charset", "utf-8;q=0, *;q=0.3", "us-ascii", "iso-8859-1;q=0.2, utf-8;q=0.1")
	add(pro, "Accept-Encoding", "gzip", "identity;q=0", "deflate;q=0.5, gzip;q=0.4", "*;q=0", "unknown")
	add(tr, "Accept-Features", "frames", "!tables", "!frames, tables, dpi=75", "tables=3", "tables!=3, dpi=300", "dpi={72}")
	add(tr, "Accept", "text/html;level=1", "*/*", "text/html;level=2, text/plain;q=0.2")
	add(tr, "Negotiate", "guess-small", "trans", "2.0, *", "vlist")
	// other configurations.
	small, few := transparent.New(transparent.MaximumVariantListSize(2)), transparent.New(transparent.GuessSmallThreshold(0), transparent.RVSA(pickIndex(1)))
	custom := proactive.New(proactive.Algorithm(pickIndex(2)))
	empty406 := proactive.New(proactive.DisableNotAcceptableRepresentation())
	lists := proactive.New(proactive.Representations(newList("text/yaml", nil)), proactive.DefaultRepresentation(newList("application/xml", nil)))
	rx := reactive.New(reactive.Representation(newList("application/xml", nil)))
	for i, n := range []negotiator.Negotiator{small, few, custom, empty406, lists, rx} {
		n := n
		more = append(more, &op{fmt.Sprint("configuration ", i), func() negotiator.Negotiator { return n }, h("Accept", "image/png", "Negotiate", "*"), reps, i%2 == 0, 0})
	}
	return append([]*op{
		{"no headers", p, nil, reps, false, 0},
		{"default instance", func() negotiator.Negotiator { return proactive.Default }, h("Accept", "text/plain;q=0.5, application/json;q=0.4"), reps, false, 0},
		{"weights", p, h("Accept", "application/json;q=0.9, text/html;q=0.1, */*;q=0.05", "Accept-Language", "fr;q=0.2, en;q=0.9, *;q=0.1"), reps, false, 0},
		{"reversed", p, h("Accept", "text/*;q=0.3, text/html;level=2", "Accept-Charset", "utf-8;q=0.1, *"), rev, true, 0},
		{"codings", p, h("Accept-Encoding", "gzip;q=0.3, deflate, identity;q=0", "Accept-Charset", "iso-8859-1"), reps, false, 0},
		{"406", p, h("Accept", "image/png"), reps, false, 0},
		{"406 xml", p, h("Accept", "application/xml;q=0.1, image/png"), one, false, 0},
		{"error", p, h("Accept", "nonsense;;"), reps, false, 0},
		{"not strict", func() negotiator.Negotiator { return lax }, h("Accept", "image/png", "Accept-Language", "xx", "Accept-Charset", "us-ascii"), reps, false, 0},
		{"empty", p, h("Accept", "image/png"), empty, false, 0},
		{"transparent list", func() negotiator.Negotiator { return tr }, h("Negotiate", "trans, vlist"), reps, false, 0},
		{"transparent choice", func() negotiator.Negotiator { return tr }, h("Negotiate", "1.0", "Accept", "text/html;q=0.9, application/json;q=0.1", "Accept-Language", "en-us, de;q=0.9", "Accept-Charset", "utf-8, us-ascii", "Accept-Features", "tables, dpi=72, !frames"), reps, false, 0},
		{"transparent default", func() negotiator.Negotiator { return transparent.Default }, h("Negotiate", "guess-small", "Accept", "text/plain"), rev, false, 0},
		{"transparent error", func() negotiator.Negotiator { return tr }, h("Negotiate", "*", "Accept-Charset", ";"), reps, false, 0},
		{"reactive", func() negotiator.Negotiator { return re }, nil, reps, false, 0},
		{"reactive default", func() negotiator.Negotiator { return reactive.Default }, nil, rev, false, 0},
		{"lacking features", func() negotiator.Negotiator { return tr }, h("Negotiate", "*", "Accept-Features", "frames, !tables"), lacking, false, 0},
		{"other features", func() negotiator.Negotiator { return tr }, h("Negotiate", "*", "Accept-Features", "frames"), lacking, false, 0},
	}, more...)
}

// decidingOps are negotiations of which one criterion decides, and ones whose
// environment panics.
func decidingOps() (out []*op) {
	pro, tr, lax, re := proactive.New(), transparent.New(), proactive.New(proactive.DisableStrictMode()), reactive.New()
	pair := func(order int, change func(a, b *Rep)) func() []*Rep {
		return func() []*Rep {
			var rs []*Rep
			for i := 0; i < 3; i++ {
				r := plain(i)
				r.CT, r.CL, r.CC, r.CE, r.SQ = "text/html", "de", "koi8-r", []string{"gzip"}, 0.9
				r.Loc = mustURL(fmt.Sprintf("http://h.example/a/v%d", i))
				r.Body = bodyFor(i, 20)
				rs = append(rs, r)
			}
			change(rs[order], rs[1-order])
			// the last one is the worst by every criterion.
			rs[2].SQ, rs[2].Body = 0.1, bodyFor(2, 90)
			return rs
		}
	}
	for order := 0; order < 2; order++ {
		for _, c := range []struct {
			name, key, value string
			change           func(a, b *Rep)
		}{
			{"type", "Accept", "text/html;q=0.5, text/plain;q=0.9, */*;q=0.1", func(a, b *Rep) { b.CT = "text/plain" }},
			{"source quality", "Accept", "text/html", func(a, b *Rep) { b.SQ = 0.95 }},
			{"language", "Accept-Language", "de;q=0.4, fr;q=0.8, *;q=0.1", func(a, b *Rep) { b.CL = "fr" }},
			{"language order", "Accept-Language", "fr, de", func(a, b *Rep) { b.CL = "fr" }},
			{"level", "Accept", "text/html", func(a, b *Rep) { a.CT, b.CT = "text/html;level=1", "text/html;level=2" }},
			{"charset", "Accept-Charset", "koi8-r;q=0.5, us-ascii;q=0.8", func(a, b *Rep) { b.CC = "us-ascii" }},
			{"another charset", "Accept-Charset", "*", func(a, b *Rep) { a.CC = "iso-8859-1" }},
			{"coding", "Accept-Encoding", "gzip;q=0.2, deflate;q=0.7, identity;q=0", func(a, b *Rep) { b.CE = []string{"deflate"} }},
			{"size", "Accept", "text/html", func(a, b *Rep) { b.Body = bodyFor(b.ID, 9) }},
			{"features", "Accept-Features", "tables", func(a, b *Rep) { a.CF, b.CF = []string{"!tables;+0.9-0.2"}, []string{"tables"} }},
		} {
			for k, n := range []negotiator.Negotiator{pro, lax, tr} {
				n := n
				if k == 1 && order == 1 {
					continue
				}
				h := http.Header{c.key: {c.value}}
				if k == 2 {
					if c.key != "Accept" {
						h["Accept"] = []string{"text/html"}
					}
					h["Negotiate"] = []string{"1.0"}
				}
				out = append(out, &op{fmt.Sprintf("%s decides, order %d, negotiator %d", c.name, order, k), func() negotiator.Negotiator { return n }, h, pair(order, c.change), false, 0})
				if k == 0 && order == 0 {
					out = append(out, &op{c.name + " differs", func() negotiator.Negotiator { return n }, nil, pair(order, c.change), false, 0})
				}
			}
		}
	}
	bomb := func(n negotiator.Negotiator, which int) *op {
		return &op{fmt.Sprintf("panic of representation %d with %T", which, n), func() negotiator.Negotiator { return n }, http.Header{"Negotiate": {"guess-small"}}, func() []*Rep {
			rs := pair(0, func(a, b *Rep) {})()
			rs[which].onBytes = func(*Rep) ([]byte, error) { panic("representation") }
			return rs
		}, false, 0}
	}
	boom := chooserFunc(func(*http.Request, ...representation.Representation) (representation.Representation, error) {
		panic("chooser")
	})
	lists := func(...representation.Representation) representation.Representation { panic("list") }
	one := pair(0, func(a, b *Rep) {})
	add := func(name string, n negotiator.Negotiator, h http.Header, panics byte) {
		out = append(out, &op{name, func() negotiator.Negotiator { return n }, h, one, false, panics})
	}
	png := http.Header{"Accept": {"image/png"}}
	all := http.Header{"Negotiate": {"*"}, "Accept": {"text/html"}, "Accept-Language": {"de"}, "Accept-Charset": {"koi8-r"}}
	for _, n := range []negotiator.Negotiator{pro, tr} {
		out = append(out, bomb(n, 0), bomb(n, 1))
	}
	add("panic of the proactive chooser", proactive.New(proactive.Algorithm(boom)), png, 0)
	add("panic of another proactive chooser", proactive.New(proactive.Algorithm(boom), proactive.DisableStrictMode()), all, 0)
	add("panic of the transparent chooser", transparent.New(transparent.RVSA(boom)), all, 0)
	add("panic of the 406 list", proactive.New(proactive.Representations(lists)), png, 0)
	add("panic of the default 406 list", proactive.New(proactive.DefaultRepresentation(lists)), png, 0)
	add("panic of the transparent list", transparent.New(transparent.ListRepresentation(lists)), http.Header{"Negotiate": {"trans"}}, 0)
	add("panic of the reactive list", reactive.New(reactive.Representation(lists)), nil, 0)
	add("panic of the writer of a choice", pro, all, 'w')
	add("panic of the writer of a 406", pro, png, 'w')
	add("panic of the writer of a transparent choice", tr, all, 'w')
	add("panic of the writer of a transparent list", tr, nil, 'w')
	add("panic of the writer of a reactive list", re, nil, 'w')
	return
}

// negotiateOp negotiates, with the panics of the environment.
func (o *op) negotiate(req *http.Request, args []representation.Representation) (answer string) {
	rec := newRecorder()
	if o.panics == 'w' {
		rec.fail = func() error { panic("writer") }
	}
	defer func() {
		switch p := recover(); p {
		case nil:
		case "representation", "chooser", "list", "writer":
			answer = fmt.Sprintf("%v after %s", p, rec.render())
		default:
			panic(p)
		}
	}()
	err := o.n().Negotiate(negotiator.NegotiationContext{ResponseWriter: rec, Request: req, IsCreation: o.create}, args...)
	return rec.render() + fmt.Sprint(err)
}

// perform runs an operation on private copies of its inputs, and checks that
// they are left as they were.
func (o *op) perform(shared http.Header) (string, string) {
	reps := o.reps()
	before := o.reps()
	h := shared
	if h == nil {
		h = o.header.Clone()
	}
	hb := h.Clone()
	req := request(h, nil)
	rb := *req
	ub := *req.URL
	args := make([]representation.Representation, len(reps), len(reps)+3)
	for i, r := range reps {
		args[i] = r
	}
	answer := o.negotiate(req, args)
	for i := range reps {
		reps[i].onBytes, before[i].onBytes = nil, nil
		if args[i] != representation.Representation(reps[i]) {
			return "", "the order of the representations was changed"
		}
		if !reflect.DeepEqual(reps[i], before[i]) {
			return "", fmt.Sprintf("representation %d was changed from %v to %v", i, before[i], reps[i])
		}
	}
	for i := len(reps); i < cap(args); i++ {
		if args[:cap(args)][i] != nil {
			return "", "the array of the representations was written to"
		}
	}
	if !reflect.DeepEqual(h, hb) {
		return "", fmt.Sprintf("the headers of the request were changed from %q to %q", hb, h)
	}
	if req.URL != rb.URL || *req.URL != ub || req.Method != rb.Method || req.Host != rb.Host {
		return "", "the request was changed"
	}
	return answer, ""
}

// freshAnswer performs the operation in a process of its own.
func freshAnswer(i int) (string, string) {
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), fmt.Sprintf("MC_FRESH=%d", i))
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	if err := cmd.Run(); err != nil {
		return "", fmt.Sprintf("fresh process: %v: %s", err, errOut.String())
	}
	if b, ok := bytes.CutPrefix(out.Bytes(), []byte("problem:")); ok {
		return "", string(b)
	}
	return strings.TrimPrefix(out.String(), "answer:"), ""
}

// freshMain is the process of freshAnswer.
func freshMain(k string) {
	i, err := strconv.Atoi(k)
	must(err)
	ans, problem := append(historyOps(), decidingOps()...)[i].perform(nil)
	if problem != "" {
		fmt.Print("problem:" + problem)
		return
	}
	fmt.Print("answer:" + ans)
}

// flood is a history of negotiations that are all different.
type flood struct {
	name string
	run  func(i int)
}

func floods() (out []flood) {
	add := func(name string, f func(i int, h http.Header, reps []*Rep)) {
		for _, n := range []struct {
			name string
			n    negotiator.Negotiator
		}{{"proactive", proactive.New()}, {"transparent", transparent.Default}, {"reactive", reactive.Default}} {
			n := n
			out = append(out, flood{n.name + " " + name, func(i int) {
				h := http.Header{"Negotiate": {"1.0"}, "Accept": {"text/html, */*;q=0.2"}}
				reps := negotiatedReps()
				f(i, h, reps)
				_, _ = negotiate(n.n, request(h, nil), false, asReps(reps)...)
			}})
		}
	}
	add("Accept", func(i int, h http.Header, _ []*Rep) {
		h["Accept"] = []string{fmt.Sprintf("text/x%d;q=0.%d, application/json;level=%d, */*", i, i, i)}
	})
	add("Accept-Language", func(i int, h http.Header, _ []*Rep) {
		h["Accept-Language"] = []string{fmt.Sprintf("en-x-a%d;q=0.%d, fr;q=0.%d, *", i, i, i)}
	})
	add("Accept-Charset", func(i int, h http.Header, _ []*Rep) {
		h["Accept-Charset"] = []string{fmt.Sprintf("cs%d, utf-8;q=0.%d, *", i, i)}
	})
	add("Accept-Encoding", func(i int, h http.Header, _ []*Rep) {
		h["Accept-Encoding"] = []string{fmt.Sprintf("gzip;q=0.%d, *;q=0.%d", i, i)}
	})
	add("Accept-Features", func(i int, h http.Header, reps []*Rep) {
		h["Accept-Features"] = []string{fmt.Sprintf("f%d, dpi=%d, !g%d", i, i, i)}
		reps[0].CF = []string{fmt.Sprintf("f%d;+1.%d", i, i)}
	})
	add("malformed requests", func(i int, h http.Header, _ []*Rep) {
		h["Accept"] = []string{fmt.Sprintf("text/x%d;q=%d", i, i+2)}
	})
	add("Negotiate", func(i int, h http.Header, _ []*Rep) { h["Negotiate"] = []string{fmt.Sprintf("ext%d, %d.0, *", i, i)} })
	add("representations", func(i int, h http.Header, reps []*Rep) {
		for _, r := range reps {
			r.CT, r.CL, r.CC = fmt.Sprintf("text/x%d;level=%d", i, i), fmt.Sprintf("en-x-b%d", i), fmt.Sprintf("cs%d", i)
			r.Loc = mustURL(fmt.Sprintf("http://h.example/a/%d", i))
			r.Body = bodyFor(r.ID, i%4000)
		}
	})
	return
}

// edit changes the inputs of the next negotiation in place.
type edit struct {
	name  string
	apply func(r *http.Request, reps []*Rep) []*Rep
}

func edits() (out []edit) {
	add := func(name string, f func(r *http.Request, reps []*Rep)) {
		out = append(out, edit{name, func(r *http.Request, reps []*Rep) []*Rep { f(r, reps); return reps }})
	}
	add("nothing", func(*http.Request, []*Rep) {})
	for i := 0; i < 3; i++ {
		i := i
		rep := func(name string, f func(r *Rep)) {
			add(fmt.Sprintf("%s of %d", name, i), func(_ *http.Request, reps []*Rep) {
				if i < len(reps) {
					f(reps[i])
				}
			})
		}
		rep("type", func(r *Rep) { r.CT = "text/plain" })
		rep("language", func(r *Rep) { r.CL = "de" })
		rep("charset", func(r *Rep) { r.CC = "us-ascii" })
		rep("codings", func(r *Rep) { r.CE = []string{"br"} })
		rep("features", func(r *Rep) { r.CF = []string{"!tables;+0.5-0.9"} })
		rep("location", func(r *Rep) { r.Loc = mustURL("http://h.example/b/elsewhere") })
		rep("quality", func(r *Rep) { r.SQ = 0.1 })
		rep("longer body", func(r *Rep) { r.Body = append(append([]byte(nil), r.Body...), make([]byte, 300)...) })
		rep("shorter body", func(r *Rep) { r.Body = append([]byte(nil), r.Body[:max(len(r.Body)-9, 0)]...) })
		rep("body", func(r *Rep) { r.Body = []byte("other") })
		rep("in place codings", func(r *Rep) {
			if len(r.CE) > 0 {
				r.CE[0] = "compress"
			}
		})
		rep("in place features", func(r *Rep) {
			if len(r.CF) > 0 {
				r.CF[0] = "!tables"
			}
		})
	}
	out = append(out, edit{"swapped", func(_ *http.Request, reps []*Rep) []*Rep {
		for i, j := 0, len(reps)-1; i < j; i, j = i+1, j-1 {
			reps[i], reps[j] = reps[j], reps[i]
		}
		return reps
	}}, edit{"one less", func(_ *http.Request, reps []*Rep) []*Rep { return reps[1:] }})
	for _, kv := range []string{"Accept: text/plain", "Accept: image/png", "Accept-Language: de", "Accept-Charset: us-ascii, *;q=0.1", "Accept-Encoding: br", "Accept-Features: !tables", "Negotiate: vlist", "Negotiate: guess-small"} {
		k, v, _ := strings.Cut(kv, ": ")
		add(kv, func(r *http.Request, _ []*Rep) { r.Header[k] = []string{v} })
		add("in place "+kv, func(r *http.Request, _ []*Rep) {
			if len(r.Header[k]) > 0 {
				r.Header[k][0] = v
			}
		})
	}
	for _, k := range []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Features", "Negotiate"} {
		add("without "+k, func(r *http.Request, _ []*Rep) { delete(r.Header, k) })
	}
	add("resource", func(r *http.Request, _ []*Rep) { *r.URL = mustURL("http://h.example/b/r") })
	return
}

// edited: the same objects are used for several negotiations, and changed in
// between; each is answered as one with fresh copies of the objects.
func edited(depth int) *Space {
	es := edits()
	copied := func(reps []*Rep) []*Rep {
		var out []*Rep
		for _, r := range reps {
			c := *r
			c.CE, c.CF = append([]string(nil), r.CE...), append([]string(nil), r.CF...)
			c.Body = append([]byte(nil), r.Body...)
			out = append(out, &c)
		}
		return out
	}
	ns := []struct {
		name   string
		shared negotiator.Negotiator
		fresh  func() negotiator.Negotiator
	}{
		{"proactive", proactive.Default, func() negotiator.Negotiator { return proactive.New() }},
		{"not strict", proactive.New(proactive.DisableStrictMode()), func() negotiator.Negotiator { return proactive.New(proactive.DisableStrictMode()) }},
		{"transparent", transparent.Default, func() negotiator.Negotiator { return transparent.New() }},
		{"reactive", reactive.Default, func() negotiator.Negotiator { return reactive.New() }},
	}
	heads := []http.Header{
		{"Accept": {"text/html;q=0.9, text/plain;q=0.8, application/json;q=0.7"}, "Accept-Language": {"en, de;q=0.9, fr;q=0.8"}, "Accept-Charset": {"utf-8, us-ascii;q=0.9, iso-8859-1;q=0.8"}, "Accept-Features": {"tables, dpi=75"}, "Negotiate": {"1.0"}},
		{"Accept": {"text/html, */*"}, "Negotiate": {"*"}},
	}
	// pools of representations: different ones, and ones of which only the size differs.
	dims := []int{len(ns), len(heads), 3}
	for i := 0; i < depth; i++ {
		dims = append(dims, len(es))
	}
	return &Space{Name: fmt.Sprintf("the same objects, changed %d times", depth), Dims: dims, Serial: true, Run: func(d []int, t *T) string {
		n := ns[d[0]]
		if d[2] > 0 && depth > 1 {
			if d[0]%2 == 1 || d[1] == 1 {
				return t.Skip()
			}
			for _, k := range d[3:] {
				if k > 38 { // of the request
					return t.Skip()
				}
			}
		}
		reps := negotiatedReps()[:3]
		for i, r := range reps {
			if d[2] > 0 {
				r.CT, r.CL, r.CC, r.CE, r.CF, r.SQ = "text/html", "en", "utf-8", []string{"gzip"}, []string{"tables"}, 0.9
				r.Body = bodyFor(i, 60-5*i)
				if d[2] == 2 {
					r.Loc = mustURL("http://h.example/a/v")
				}
			}
			r.CE = append([]string(nil), r.CE...)
			r.CF = append([]string(nil), r.CF...)
		}
		u := mustURL("http://h.example/a/r")
		req := request(heads[d[1]].Clone(), &u)
		var names []string
		t.Describe(func() any {
			return map[string]any{"negotiator": n.name, "header": heads[d[1]], "pool": d[2], "changes": names}
		})
		t.Outcome(n.name)
		h := uint64(d[0]*2+d[1])*3 + uint64(d[2])
		for _, k := range append([]int{0}, d[3:]...) {
			names = append(names, es[k].name)
			reps = es[k].apply(req, reps)
			h = mix(h, uint64(k))
			t.Step("changed", h)
			fu := *req.URL
			freshReq := request(req.Header.Clone(), &fu)
			want, wantErr := negotiate(n.fresh(), freshReq, false, asReps(copied(reps))...)
			got, err := negotiate(n.shared, req, false, asReps(reps)...)
			t.Exec(2)
			if fmt.Sprint(err) != fmt.Sprint(wantErr) || got.render() != want.render() {
				return fmt.Sprintf("after %q: %q %v instead of %q %v", names, got.render(), err, want.render(), wantErr)
			}
		}
		return ""
	}}
}

func init() {
	register(&Prop{
		ID:   "P10",
		Rule: "every sequence up to the depth over negotiations of all kinds (instances and default instances, choices, lists, errors); every one has to be answered as in a fresh process state, and leaves request and representations as they were",
		Spaces: func(tier string) []*Space {
			ops := historyOps()
			core := len(ops)
			ops = append(ops, decidingOps()...)
			golden := make([]string, len(ops))
			problem := make([]string, len(ops))
			for i := range ops {
				golden[i], problem[i] = freshAnswer(i)
			}
			seq := func(d []int, shared bool, t *T) string {
				var names []string
				for _, k := range d {
					names = append(names, ops[k].name)
				}
				t.Describe(func() any { return names })
				h := uint64(1)
				var sh http.Header
				for i, k := range d {
					if problem[k] != "" {
						return fmt.Sprintf("%s: %s", ops[k].name, problem[k])
					}
					if shared {
						// one header map for all requests that have the same headers.
						if i == 0 {
							sh = ops[k].header.Clone()
						}
						if !reflect.DeepEqual(sh, ops[k].header) {
							sh = ops[k].header.Clone()
						}
					}
					got, m := ops[k].perform(sh)
					t.Exec(1)
					h = mix(h, uint64(k))
					t.Step("history", h)
					if m != "" {
						return fmt.Sprintf("%s: %s", ops[k].name, m)
					}
					if got != golden[k] {
						return fmt.Sprintf("%q after %q is answered %q instead of %q", ops[k].name, names[:i], got, golden[k])
					}
				}
				t.Outcome(ops[d[len(d)-1]].name)
				return ""
			}
			depth := 3
			// the operations of longer sequences: every third one.
			var long []int
			for i := 0; i < core; i += 3 {
				long = append(long, i)
			}
			mk := func(n, of int) []int {
				x := make([]int, n)
				for i := range x {
					x[i] = of
				}
				return x
			}
			// every operation is answered as before after a long history.
			all := func(after string, t *T) string {
				for round := 0; round < 2; round++ {
					for k, o := range ops {
						got, m := o.perform(nil)
						t.Exec(1)
						t.Step("after "+after, uint64(k))
						if m != "" {
							return fmt.Sprintf("%s: %s", o.name, m)
						}
						if got != golden[k] {
							return fmt.Sprintf("%q after %s is answered %q instead of %q", o.name, after, got, golden[k])
						}
					}
				}
				t.Outcome("long history")
				return ""
			}
			floods := floods()
			sizes := []int{20, 300, 5000}
			if thorough(tier) {
				sizes = []int{20, 300, 5000, 70000}
			}
			out := []*Space{
				{Name: "many times the same", Dims: []int{len(ops), 2}, Serial: true, Slow: true, Run: func(d []int, t *T) string {
					n := []int{257, 1100}[d[1]]
					t.Describe(func() any { return fmt.Sprintf("%d times %q, and then each", n, ops[d[0]].name) })
					for i := 0; i < n; i++ {
						ops[d[0]].perform(nil)
					}
					t.Exec(n)
					return all(fmt.Sprintf("%d times %q", n, ops[d[0]].name), t)
				}},
				{Name: "many different requests", Dims: []int{len(floods), len(sizes)}, Serial: true, Slow: true, Run: func(d []int, t *T) string {
					f := floods[d[0]]
					t.Describe(func() any { return fmt.Sprintf("%d different %s, and then each", sizes[d[1]], f.name) })
					for i := 0; i < sizes[d[1]]; i++ {
						f.run(i)
					}
					t.Exec(sizes[d[1]])
					return all(fmt.Sprintf("%d different %s", sizes[d[1]], f.name), t)
				}},
			}
			if thorough(tier) {
				out = append(out, &Space{Name: "sequences of 4", Dims: []int{len(long), len(long), len(long), len(long)}, Serial: true, Slow: true, Run: func(d []int, t *T) string {
					return seq([]int{long[d[0]], long[d[1]], long[d[2]], long[d[3]]}, false, t)
				}})
			}
			if thorough(tier) {
				out = append(out, edited(3))
			}
			return append([]*Space{
				edited(1), edited(2),
				{Name: "single", Dims: mk(1, len(ops)), Serial: true, Run: func(d []int, t *T) string { return seq(d, false, t) }},
				{Name: "repeated", Dims: []int{len(ops), 64}, Serial: true, Run: func(d []int, t *T) string {
					x := make([]int, d[1]+1)
					for i := range x {
						x[i] = d[0]
					}
					return seq(x, true, t)
				}},
				{Name: fmt.Sprintf("sequences of %d", depth), Dims: mk(depth, core), Serial: true, Slow: true, Run: func(d []int, t *T) string { return seq(d, false, t) }},
				{Name: "pairs", Dims: mk(2, len(ops)), Serial: true, Run: func(d []int, t *T) string { return seq(d, false, t) }},
				{Name: "shared header maps", Dims: mk(2, len(ops)), Serial: true, Run: func(d []int, t *T) string { return seq([]int{d[0], d[1], d[0], d[1]}, true, t) }},
			}, out...)
		},
	})
}

package main

import (
	"net/http"
	"strconv"
	"strings"
)

// feat is one expression of an Accept-Features header.
type feat struct {
	op       byte // e(xists) !(absent) =(equals) {(exclusively equals) n(ot equals)
	tag, val string
}

func (f feat) text() string {
	switch f.op {
	case 'e':
		return f.tag
	case '!':
		return "!" + f.tag
	case '=':
		return f.tag + "=" + f.val
	case '{':
		return f.tag + "={" + f.val + "}"
	}
	return f.tag + "!=" + f.val
}

// pred is a feature predicate.
type pred struct {
	op       byte // e ! = n [
	tag, val string
	lo, hi   int // -1 when not specified
}

func (p pred) text() string {
	if p.op != '[' {
		return feat{p.op, p.tag, p.val}.text()
	}
	lo, hi := "", ""
	if p.lo >= 0 {
		lo = strconv.Itoa(p.lo)
	}
	if p.hi >= 0 {
		hi = strconv.Itoa(p.hi)
	}
	return p.tag + "=[" + lo + "-" + hi + "]"
}

// elem is an element of a feature list: a predicate, or a bag of them, with
// the factors in thousandths (qNone when not specified).
type elem struct {
	ps   []pred
	bag  bool
	t, f int
}

func (e elem) text() string {
	var s []string
	for _, p := range e.ps {
		s = append(s, p.text())
	}
	out := strings.Join(s, " ")
	if e.bag {
		out = "[" + out + "]"
	}
	if e.t == qNone && e.f == qNone {
		return out
	}
	out += ";"
	if e.t != qNone {
		out += "+" + factorText(e.t)
	}
	if e.f != qNone {
		out += "-" + factorText(e.f)
	}
	return out
}

func factorText(f int) string {
	s := strconv.Itoa(f / 1000)
	if f%1000 != 0 {
		d := strconv.Itoa(1000 + f%1000)[1:]
		s += "." + strings.TrimRight(d, "0")
	}
	return s
}

// features is what the request tells about the user agent.
type features struct {
	present, absent map[string]bool
	vals            map[string][]string
	empty           bool
}

func featuresOf(fs []feat) features {
	x := features{map[string]bool{}, map[string]bool{}, map[string][]string{}, len(fs) == 0}
	for _, f := range fs {
		k := strings.ToLower(f.tag)
		switch f.op {
		case '!':
			x.absent[k] = true
		case '=', '{':
			x.present[k] = true
			x.vals[k] = append(x.vals[k], strings.Trim(f.val, `"`))
		default:
			x.present[k] = true
		}
	}
	return x
}

func (x features) holds(p pred) bool {
	k := strings.ToLower(p.tag)
	has := func() bool {
		for _, v := range x.vals[k] {
			if v == p.val {
				return true
			}
		}
		return false
	}
	switch p.op {
	case 'e':
		return x.present[k]
	case '!':
		return x.absent[k] && !x.present[k]
	case '=':
		return has()
	case 'n':
		return x.present[k] && !has()
	}
	max := -1
	for _, v := range x.vals[k] {
		if n, err := strconv.Atoi(v); err == nil && n > max {
			max = n
		}
	}
	if max < 0 {
		return false
	}
	return (p.lo < 0 || max >= p.lo) && (p.hi < 0 || max <= p.hi)
}

// factor of a feature list element, in thousandths.
func (x features) factor(e elem) int {
	for _, p := range e.ps {
		if x.holds(p) {
			if e.t == qNone {
				return 1000
			}
			return e.t
		}
	}
	if e.f != qNone {
		return e.f
	}
	if e.t != qNone {
		return 1000
	}
	return 0
}

// variant is a representation with a structured feature list.
type variant struct {
	*Rep
	sq    int
	elems []elem
}

func (v *variant) render() *Rep {
	v.SQ = float32(v.sq) / 1000
	v.CF = nil
	for _, e := range v.elems {
		v.CF = append(v.CF, e.text())
	}
	return v.Rep
}

// rvsa is the remote variant selection algorithm 1.0: the variant with the
// highest overall quality is chosen, when the quality is not zero, and when it
// does not depend on wildcards or on headers that the request lacks.
func rvsa(h Headers, fs []feat, vs []*variant, t *T) (chosen int, ok bool) {
	x := featuresOf(fs)
	if len(fs) > 0 {
		k := uint64(0)
		for _, f := range fs {
			k = mix(k, hashStr(f.text()))
		}
		t.Step("feature set", k)
	}
	type sc struct {
		val float64
		def bool
	}
	var all []sc
	for i, v := range vs {
		qt, wt := typeQuality(h.Accept, v.CT)
		ql, _, wl, decided := langQuality(h.Lang, v.CL)
		if !decided {
			return none, false
		}
		qc, wc := charsetQuality(h.Charset, v.CC)
		val := float64(v.sq) * float64(qt) * float64(ql) * float64(qc) / 1e7 // in units of 1e-5
		wf := false
		if len(v.elems) > 0 {
			if x.empty {
				wf = true
			} else {
				for _, e := range v.elems {
					val = val * float64(x.factor(e)) / 1000
				}
			}
		}
		all = append(all, sc{val, !(wt || wl || wc || wf)})
		t.Step("overall", uint64(i), uint64(val), b2u(all[i].def))
	}
	if len(all) == 0 {
		return none, true
	}
	best := 0
	for i, s := range all {
		if s.val > all[best].val {
			best = i
		}
	}
	b := all[best]
	for i, s := range all {
		if i == best || s.val == 0 {
			continue
		}
		d := b.val - s.val
		if d < 0.0001 && nearInt(b.val) {
			continue // a tie, the first one is chosen
		}
		if d < 2 {
			return none, false
		}
	}
	// five decimals: too close to tell.
	if b.val > 0 && b.val < 2 {
		return none, false
	}
	if b.val == 0 || !b.def {
		t.Step("rvsa", 99, uint64(len(vs)))
		return none, true
	}
	for i, s := range all {
		if b.val-s.val < 0.0001 {
			best = i
			break
		}
	}
	t.Step("rvsa", uint64(best), uint64(len(vs)))
	return best, true
}

func nearInt(f float64) bool {
	d := f - float64(int64(f+0.5))
	return d < 0.01 && d > -0.01
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func featHeader(h http.Header, fs []feat) {
	if len(fs) == 0 {
		return
	}
	var s []string
	for _, f := range fs {
		s = append(s, f.text())
	}
	h["Accept-Features"] = []string{strings.Join(s, ", ")}
}

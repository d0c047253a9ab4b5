package main

import (
	"fmt"
	"math/big"
	"net/http"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// digits is the number that a feature tag value consists of: digits only, of
// any length.
func digits(s string) (*big.Int, bool) {
	if s == "" {
		return nil, false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return nil, false
		}
	}
	return new(big.Int).SetString(s, 10)
}

// inRange tells whether the highest number among the values is in the range.
func inRange(vals []string, lo, hi string) bool {
	var max *big.Int
	for _, v := range vals {
		if n, ok := digits(v); ok && (max == nil || n.Cmp(max) > 0) {
			max = n
		}
	}
	if max == nil {
		return false
	}
	if n, ok := digits(lo); ok && max.Cmp(n) < 0 {
		return false
	}
	if n, ok := digits(hi); ok && max.Cmp(n) > 0 {
		return false
	}
	return true
}

// prefers tells whether the representation with the feature list is preferred
// to one of lower quality, and not to one of higher quality, that is whether
// its quality is q thousandths.
func prefers(lines []string, list []string, q int, t *T) string {
	for _, order := range []int{0, 1} {
		hh := http.Header{"Accept-Features": lines}
		r, c := plain(0), plain(1)
		r.CF = list
		c.SQ = float32(q+1-2*order) / 1000
		reps := []*Rep{r, c}
		t.Describe(func() any { return describe(hh, reps) })
		got, err := transparent.RVSA1().Choose(request(hh, nil), asReps(reps)...)
		t.Exec(1)
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		if want := reps[1-order]; got != any(want) {
			return fmt.Sprintf("chose the other variant: the quality of the first one is %d thousandths", q)
		}
	}
	return ""
}

func numberSpaces(tier string) []*Space {
	var numbers []string
	for _, k := range []uint{0, 7, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 127, 128, 200} {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		for _, d := range []int64{-1, 0, 1} {
			numbers = append(numbers, new(big.Int).Add(p, big.NewInt(d)).String())
		}
	}
	for _, n := range []int{17, 18, 19, 20, 21, 30, 39, 40, 77, 78, 100} {
		numbers = append(numbers, "1"+strings.Repeat("0", n), strings.Repeat("9", n), strings.Repeat("0", n)+"7", strings.Repeat("0", n))
	}
	// the ones below are not numbers.
	others := []string{"+5", "-5", "5.0", "0x5", "5e0", "1_0", "0b1", "0o7", "5px", "x5", "5-6", "inf", "NaN", "\u0665", "\uff15", "5.", ".5"}
	values := append(append([]string{}, numbers...), others...)
	bounds := append([]string{""}, numbers...)
	spell := func(v string, k int) string {
		switch k {
		case 1:
			return "dpi={" + v + "}"
		}
		return "dpi=" + v
	}
	return []*Space{
		{Name: "numbers of any length", Dims: []int{len(values), len(bounds), len(bounds), 2}, Run: func(d []int, t *T) string {
			// bounds that are unspecified, or near the value.
			near := func(k int) bool {
				return k == 0 || d[0] >= len(numbers) && k%7 == 0 || k-1-d[0] < 5 && d[0]-k+1 < 5 || k%9 == 1 && d[0]%2 == 0
			}
			if !thorough(tier) && (!near(d[1]) || !near(d[2])) {
				return t.Skip()
			}
			v, lo, hi := values[d[0]], bounds[d[1]], bounds[d[2]]
			q := 300
			in := inRange([]string{v}, lo, hi)
			if in {
				q = 800
			}
			t.Outcome(fmt.Sprint("in range: ", in))
			t.Step("number", hashStr(v), hashStr(lo), hashStr(hi))
			return prefers([]string{spell(v, d[3])}, []string{"dpi=[" + lo + "-" + hi + "];+0.8-0.3"}, q, t)
		}},
		{Name: "the highest number", Dims: []int{len(values), len(values), len(bounds)}, Run: func(d []int, t *T) string {
			if !thorough(tier) && (d[1]+2*d[0])%5 != 0 {
				return t.Skip()
			}
			a, b, x := values[d[0]], values[d[1]], bounds[d[2]]
			if !thorough(tier) && x != "" && x != a && x != b {
				return t.Skip()
			}
			for _, r := range [][2]string{{x, ""}, {"", x}, {x, x}} {
				q := 300
				in := inRange([]string{a, b}, r[0], r[1])
				if in {
					q = 800
				}
				t.Outcome(fmt.Sprint("in range: ", in))
				t.Step("numbers", hashStr(a), hashStr(b), hashStr(r[0]), hashStr(r[1]))
				if m := prefers([]string{spell(a, 0), spell(b, 1)}, []string{"dpi=[" + r[0] + "-" + r[1] + "];+0.8-0.3"}, q, t); m != "" {
					return m
				}
			}
			return ""
		}},
		// values are compared as texts: a number spelled differently is another one.
		{Name: "equality of numbers", Dims: []int{len(values), len(values)}, Run: func(d []int, t *T) string {
			a, b := values[d[0]], values[d[1]]
			if strings.ContainsAny(b, "\u0665\uff15-.+") {
				return t.Skip()
			}
			same := a == b
			t.Outcome(fmt.Sprint("equal: ", same))
			t.Step("equal", hashStr(a), hashStr(b))
			q := 300
			if same {
				q = 800
			}
			if m := prefers([]string{spell(a, 0)}, []string{"dpi=" + b + ";+0.8-0.3"}, q, t); m != "" {
				return m
			}
			return prefers([]string{spell(a, 1)}, []string{"dpi!=" + b + ";+0.3-0.8"}, q, t)
		}},
	}
}

// expressionSpaces: whitespace within the expressions of Accept-Features.
func expressionSpaces(tier string) []*Space {
	tr := transparent.New()
	ws := []string{"", " ", "\t", " \t  "}
	type ex struct {
		parts []string
	}
	exprs := []ex{
		{[]string{"tables"}}, {[]string{"!", "tables"}}, {[]string{"tables", "=", "5"}}, {[]string{"tables", "!=", "5"}}, {[]string{"tables", "=", "{", "5", "}"}},
		{[]string{"tables", "=", `"5"`}}, {[]string{"tables", "=", "A4"}}, {[]string{"tables", "!=", "A4"}}, {[]string{"tables", "=", "{", "A4", "}"}}, {[]string{"TABLES", "=", "72"}},
		{[]string{"!", "frames"}}, {[]string{"frames", "=", "5"}}, {[]string{"!", "Tables"}},
	}
	lists := [][]string{{"tables"}, {"!tables"}, {"tables=5"}, {"tables!=5"}, {"tables=[4-6]"}, {"tables=A4"}, {"tables!=A4"}, {"tables=[70-]"}, {"[tables=A4 tables=5];+0.8-0.5"}, {"!frames"}}
	others := []string{"", "dpi=72", "frames", "tables = 6"}
	return []*Space{{Name: "whitespace within feature expressions", Dims: []int{len(exprs), len(lists), len(others), 2, len(ws), len(ws), len(ws), len(ws)}, Run: func(d []int, t *T) string {
		e := exprs[d[0]].parts
		for i := len(e) - 1; i < 4; i++ {
			if d[4+i] != 0 {
				return t.Skip()
			}
		}
		text := e[0]
		for i := 1; i < len(e); i++ {
			text += ws[d[4+i-1]] + e[i]
		}
		plainText := strings.Join(e, "")
		plainLine, line := []string{plainText}, []string{text}
		if o := others[d[2]]; o != "" {
			p := strings.ReplaceAll(o, " ", "")
			plainLine, line = []string{p + ", " + plainText}, []string{o + ", " + text}
			if d[3] == 1 {
				line = []string{text, o}
				plainLine = []string{plainText, p}
			}
		} else if d[3] == 1 {
			return t.Skip()
		}
		r1, r2 := plain(0), plain(1)
		r1.CF, r1.SQ, r2.SQ = lists[d[1]], 0.9, 0.4
		return sameAnswer([]negotiator.Negotiator{tr}, "Accept-Features", plainLine, line, http.Header{"Negotiate": {"1.0"}}, []*Rep{r1, r2}, t)
	}}}
}

func init() {
	extend("T03", numberSpaces)
	extend("P05", expressionSpaces)
	extend("T03", expressionSpaces)
}

// usedListSpaces: a list that held other entries, or that failed to be read,
// holds what it is read from and nothing else.
func usedListSpaces(tier string) []*Space {
	formats := []string{"application/json", "application/xml", "application/yaml", "text/yaml", "text/html"}
	codings := [][]string{nil, {"gzip"}}
	entries := []*Rep{
		{CT: "text/html", CL: "en", CC: "utf-8", CE: []string{"gzip", "br"}, CF: []string{"tables", "!frames"}, SQ: 0.9, Loc: mustURL("http://h.example/a/v")},
		{SQ: 0.5},
		{CT: "text/plain", CE: []string{"deflate"}, SQ: 0.25},
		{CL: "fr", CF: []string{"x", "y", "z"}},
	}
	n := len(entries) + 1
	depth := 3
	pick := func(d []int) (out []*Rep, ok bool) {
		for i, k := range d {
			if k == 0 {
				for _, x := range d[i:] {
					if x != 0 {
						return nil, false
					}
				}
				break
			}
			out = append(out, entries[k-1])
		}
		return out, true
	}
	formOf := func(ct string, ce []string, reps []*Rep) []byte {
		l := representation.List{}
		l.SetContentType(ct)
		l.SetContentEncoding(ce)
		l.SetRepresentations(asReps(reps)...)
		b, err := l.Bytes()
		must(err)
		return b
	}
	return []*Space{{Name: "reading into a used list", Dims: append([]int{len(formats), len(codings), 4}, append(dup(n, depth), dup(n, depth)...)...), Run: func(d []int, t *T) string {
		first, ok1 := pick(d[3 : 3+depth])
		second, ok2 := pick(d[3+depth:])
		if !ok1 || !ok2 {
			return t.Skip()
		}
		ct, ce := formats[d[0]], codings[d[1]]
		t.Describe(func() any {
			return map[string]any{"format": ct, "codings": ce, "how": d[2], "first": describe(nil, first), "second": describe(nil, second)}
		})
		var l representation.List
		l.SetContentType(ct)
		l.SetContentEncoding(ce)
		switch d[2] {
		case 0: // read before
			if err := l.FromBytes(formOf(ct, ce, first)); err != nil {
				return fmt.Sprintf("unexpected error %q", err)
			}
		case 1: // filled before
			l.SetRepresentations(asReps(first)...)
		case 2: // read in vain before
			b := formOf(ct, ce, first)
			_ = l.FromBytes(b[:len(b)*2/3])
		case 3: // read several times, in another format as well
			l.SetContentType(formats[(d[0]+1)%len(formats)])
			if err := l.FromBytes(formOf(formats[(d[0]+1)%len(formats)], ce, first)); err != nil {
				return fmt.Sprintf("unexpected error %q", err)
			}
			l.SetContentType(ct)
			if err := l.FromBytes(formOf(ct, ce, second)); err != nil {
				return fmt.Sprintf("unexpected error %q", err)
			}
		}
		err := l.FromBytes(formOf(ct, ce, second))
		t.Exec(1)
		t.Step("used list", hashStr(ct), uint64(len(first)), uint64(len(second)), uint64(d[2]))
		t.Outcome(fmt.Sprintf("%d entries", len(second)))
		if err != nil {
			return fmt.Sprintf("unexpected error %q", err)
		}
		if len(l.Representations) != len(second) {
			return fmt.Sprintf("read %d entries, there are %d", len(l.Representations), len(second))
		}
		for i, m := range l.Representations {
			got := meta{m.ContentType, m.ContentLanguage, m.ContentCharset, m.ContentLocation, m.ContentEncoding, m.ContentFeatures, float64(m.SourceQuality)}
			if !got.same(metaOf(second[i])) {
				return fmt.Sprintf("entry %d: read %+v for %+v", i, got, metaOf(second[i]))
			}
		}
		return ""
	}}}
}

func init() { extend("L01", usedListSpaces) }

package main

import (
	"fmt"

	"github.com/freerware/negotiator/proactive"
)

var strictLanguages = proactive.New(proactive.DisableNotAcceptableRepresentation())

// relatedLanguages are ranges and tags of which many belong to the same
// language, with scripts, regions and variants.
var relatedLanguages = []string{"en", "en-US", "en-GB", "en-AU", "en-us", "EN", "zh", "zh-Hans", "zh-Hant", "zh-TW", "zh-CN", "zh-Hant-TW", "zh-Hant-HK", "pt", "pt-BR", "pt-PT", "sr-Latn", "sr", "sr-Cyrl-RS", "es", "es-419", "es-MX", "es-ES", "de", "de-AT", "de-CH-1996", "fr-CA", "fr"}

// languageSpaces relate ranges and tags that are not simply equal or a prefix.
func languageSpaces(id string) func(string) []*Space {
	return func(tier string) []*Space {
		ls := relatedLanguages
		qs := []int{qNone, 500, 0}
		n := len(ls)
		if !thorough(tier) {
			n = 14
		}
		headers := func(d []int) Headers {
			rs := []Rng{rng(ls[d[0]], qs[d[2]]), rng(append([]string{"*"}, ls...)[d[1]], []int{qNone, 700, 0}[d[3]])}
			return Headers{Lang: rs}
		}
		run := func(h Headers, tags []string, t *T) string {
			t.Outcome(fmt.Sprintf("%d ranges %d tags", len(h.Lang), len(tags)))
			if id == "T02" {
				var vs []*variant
				for i, tag := range tags {
					v := vplain(i, 1000-i*10)
					v.CL = tag
					vs = append(vs, v)
				}
				return rvsaCase(h, nil, vs, t)
			}
			var reps []*Rep
			for i, tag := range tags {
				r := plain(i)
				r.CL = tag
				reps = append(reps, r)
			}
			return bestChoice(strictLanguages, h, reps, thousands(len(reps)), t)
		}
		return []*Space{
			{Name: "related languages, one tag", Dims: []int{len(ls), len(ls) + 1, len(qs), 3, len(ls)}, Run: func(d []int, t *T) string {
				return run(headers(d), []string{ls[d[4]]}, t)
			}},
			{Name: "related languages, two tags", Dims: []int{n, n + 1, len(qs), 3, n, n}, Run: func(d []int, t *T) string {
				return run(headers(d), []string{ls[d[4]], ls[d[5]]}, t)
			}},
		}
	}
}

func init() {
	extend("P02", languageSpaces("P02"))
	extend("T02", languageSpaces("T02"))
}

package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"strings"

	"github.com/freerware/negotiator/representation"
	"gopkg.in/yaml.v2"
)

// readRef reads the text of a type without the library.
func readRef(ct string, b []byte, v any) error {
	switch strings.ToLower(strings.TrimSpace(strings.SplitN(ct, ";", 2)[0])) {
	case "application/json":
		return json.Unmarshal(b, v)
	case "application/xml", "text/html":
		return xml.Unmarshal(b, v)
	}
	return yaml.Unmarshal(b, v)
}

// said is what a document says, where "not a number" equals itself.
func said(d *Doc) string { return fmt.Sprintf("%q %d %q %v", d.Name, d.Count, d.Tags, d.Sub) }

// editTokens are what replaces or is added to a text.
var editTokens = []string{
	"", " ", "\n", "\t", "\r\n", "\x00", "\xff", "\xef\xbb\xbf", "&", "&x;", "&amp;", "&nbsp;", "<", ">", "<br>", "</x>", "<x/>", "<!--", "<!-- x -->", "<?xml version=\"1.0\"?>", "<![CDATA[ x ]]>", "]]>",
	"{", "}", "[", "]", ",", ":", "\"", "'", "\\", "//", "/* x */", "#", " # x", "---", "\n---\n", "\n...\n", "\n- ", "- ", "? ", "! ", "!!str ", "*x", "&x ", "|", "%", "@", "`",
	"null", "true", "NaN", "0", "1", "-", "+", ".5", "1e400", "\n  ", "\"x\":1,", "\nx: 1\n", "<X>1</X>", "{}", "[]", "{\"Name\":\"z\"}", "\nname: z\n", "<Name>z</Name>", "<Doc><Name>z</Name></Doc>",
}

// textSpaces reads texts that have been edited at every position, and compares
// with what the text means by the definition of its format.
func textSpaces(tier string) []*Space {
	which := []int{1, 2, 6}
	types := []string{"application/json", "application/xml", "application/yaml", "text/html", "text/yaml"}
	stacks := [][]string{nil, {"gzip"}, {"deflate", "compress"}}
	if thorough(tier) {
		which = []int{0, 1, 2, 4, 6}
	}
	longest := 0
	texts := map[[2]int][]byte{}
	listTexts := make([][]byte, len(types))
	for ti, ty := range types {
		for di, d := range which {
			b := plainBytes(ty, newDoc(&docs[d], "", nil))
			texts[[2]int{di, ti}] = b
			if len(b) > longest {
				longest = len(b)
			}
		}
		var l representation.List
		l.Representations = []representation.Metadata{{ContentType: "a/b", ContentLanguage: "en", ContentEncoding: []string{"gzip"}, ContentLocation: "/x", ContentCharset: "u", ContentFeatures: []string{"f", "!g;+1-2"}, SourceQuality: 0.5}, {ContentType: "a/c;x=\"1  2\""}}
		listTexts[ti] = plainBytes(ty, &l)
		if len(listTexts[ti]) > longest {
			longest = len(listTexts[ti])
		}
	}
	edit := func(b []byte, at, mode, token int) ([]byte, bool) {
		if at > len(b) {
			return nil, false
		}
		out := append([]byte(nil), b[:at]...)
		out = append(out, editTokens[token]...)
		switch mode {
		case 1: // replaced
			if at == len(b) {
				return nil, false
			}
			at++
		case 2: // replaced up to the end
			at = len(b)
		}
		return append(out, b[at:]...), true
	}
	decide := func(ty string, ce []string, b []byte, t *T) string {
		t.Describe(func() any { return map[string]any{"type": ty, "codings": ce, "text": string(b)} })
		want := newDoc(nil, ty, ce)
		wantErr := readRef(ty, b, want)
		got := newDoc(nil, ty, ce)
		err := got.FromBytes(encodeRef(ce, b))
		t.Exec(1)
		t.Step("text", hashStr(ty), hashStr(string(b)))
		t.Outcome(fmt.Sprintf("%s error=%v", ty, wantErr != nil))
		if (err != nil) != (wantErr != nil) {
			return fmt.Sprintf("error %v, the text itself gives %v", err, wantErr)
		}
		if err == nil && said(got) != said(want) {
			return fmt.Sprintf("read as %+v, the text says %+v", said(got), said(want))
		}
		return ""
	}
	decideList := func(ty string, ce []string, b []byte, t *T) string {
		t.Describe(func() any { return map[string]any{"type": ty, "codings": ce, "text of a list": string(b)} })
		var want, got representation.List
		wantErr := readRef(ty, b, &want)
		got.SetContentType(ty)
		got.SetContentEncoding(ce)
		err := got.FromBytes(encodeRef(ce, b))
		t.Exec(1)
		t.Step("list", hashStr(ty), hashStr(string(b)))
		t.Outcome(fmt.Sprintf("list %s error=%v", ty, wantErr != nil))
		if (err != nil) != (wantErr != nil) {
			return fmt.Sprintf("error %v, the text itself gives %v", err, wantErr)
		}
		if err == nil && fmt.Sprintf("%+v", got.Representations) != fmt.Sprintf("%+v", want.Representations) {
			return fmt.Sprintf("read as %+v, the text says %+v", got.Representations, want.Representations)
		}
		return ""
	}
	return []*Space{
		{Name: "edited texts", Dims: []int{len(which), len(types), longest + 1, 3, len(editTokens)}, Run: func(d []int, t *T) string {
			b, ok := edit(texts[[2]int{d[0], d[1]}], d[2], d[3], d[4])
			if !ok {
				return t.Skip()
			}
			return decide(types[d[1]], nil, b, t)
		}},
		{Name: "edited lists", Dims: []int{len(types), longest + 1, 3, len(editTokens)}, Run: func(d []int, t *T) string {
			b, ok := edit(listTexts[d[0]], d[1], d[2], d[3])
			if !ok {
				return t.Skip()
			}
			return decideList(types[d[0]], nil, b, t)
		}},
		{Name: "encoded texts with additions", Dims: []int{len(which), len(types), len(stacks), 2, len(editTokens), len(editTokens)}, Run: func(d []int, t *T) string {
			b := texts[[2]int{d[0], d[1]}]
			add := editTokens[d[4]] + editTokens[d[5]]
			if d[3] == 0 {
				b = append([]byte(add), b...)
			} else {
				b = append(append([]byte(nil), b...), add...)
			}
			return decide(types[d[1]], stacks[d[2]], b, t)
		}},
		{Name: "small texts", Dims: append([]int{len(types)}, dup(len(editTokens), 3)...), Run: func(d []int, t *T) string {
			return decide(types[d[0]], nil, []byte(editTokens[d[1]]+editTokens[d[2]]+editTokens[d[3]]), t)
		}},
	}
}

func init() { extend("S03", textSpaces) }

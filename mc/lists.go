package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"

	"strconv"
	"strings"

	"github.com/freerware/negotiator/representation"
	"gopkg.in/yaml.v2"
)

// meta is what a list tells about a representation.
type meta struct {
	ct, cl, cc, loc string
	ce, cf          []string
	sq              float64
}

func metaOf(r *Rep) meta {
	return meta{ct: r.CT, cl: r.CL, cc: r.CC, loc: r.Loc.String(), ce: r.CE, cf: r.CF, sq: float64(r.SQ)}
}

// same ignores the difference between absent and empty, and the precision
// that float32 does not have.
func (m meta) same(o meta) bool {
	eq := func(a, b []string) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	return m.ct == o.ct && m.cl == o.cl && m.cc == o.cc && m.loc == o.loc && eq(m.ce, o.ce) && eq(m.cf, o.cf) &&
		(float32(m.sq) == float32(o.sq) || m.sq != m.sq && o.sq != o.sq)
}

// node is a format independent tree.
type node struct {
	text string
	kids map[string][]*node // keys are lower case
}

func (n *node) add(k string, c *node) {
	if n.kids == nil {
		n.kids = map[string][]*node{}
	}
	k = strings.ToLower(k)
	n.kids[k] = append(n.kids[k], c)
}

func fromAny(v any, key string, parent *node) error {
	switch x := v.(type) {
	case nil:
	case []any:
		for _, e := range x {
			if err := fromAny(e, key, parent); err != nil {
				return err
			}
		}
	case map[string]any:
		n := &node{}
		for k, e := range x {
			if err := fromAny(e, k, n); err != nil {
				return err
			}
		}
		parent.add(key, n)
	case map[any]any:
		n := &node{}
		for k, e := range x {
			if err := fromAny(e, fmt.Sprint(k), n); err != nil {
				return err
			}
		}
		parent.add(key, n)
	case string:
		parent.add(key, &node{text: x})
	case float64, int, json.Number, uint64, int64, bool:
		parent.add(key, &node{text: fmt.Sprint(x)})
	default:
		return fmt.Errorf("unexpected %T", v)
	}
	return nil
}

func fromXML(d *xml.Decoder, parent *node) error {
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			n := &node{}
			if err := fromXML(d, n); err != nil {
				return err
			}
			parent.add(x.Name.Local, n)
		case xml.EndElement:
			return nil
		case xml.CharData:
			parent.text += string(x)
		}
	}
}

// decodeList is an independent reader of the list formats.
func decodeList(ct string, body []byte) ([]meta, error) {
	root := &node{}
	mt := strings.ToLower(strings.TrimSpace(strings.SplitN(ct, ";", 2)[0]))
	switch mt {
	case "application/json":
		var v any
		d := json.NewDecoder(bytes.NewReader(body))
		d.UseNumber()
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
		if d.More() {
			return nil, fmt.Errorf("more than one JSON value")
		}
		if err := fromAny(v, "list", root); err != nil {
			return nil, err
		}
	case "application/yaml", "text/yaml":
		var v any
		if err := yaml.Unmarshal(body, &v); err != nil {
			return nil, err
		}
		if err := fromAny(v, "list", root); err != nil {
			return nil, err
		}
	case "application/xml", "text/html":
		if err := fromXML(xml.NewDecoder(bytes.NewReader(body)), root); err != nil {
			return nil, err
		}
	default:
		return nil, fmt.Errorf("content type %q is not a list format", ct)
	}
	if len(root.kids["list"]) != 1 {
		return nil, fmt.Errorf("not a single list")
	}
	var out []meta
	for _, r := range root.kids["list"][0].kids["representations"] {
		var m meta
		one := func(k string) string {
			if len(r.kids[k]) > 0 {
				return r.kids[k][0].text
			}
			return ""
		}
		many := func(k string) (s []string) {
			for _, c := range r.kids[k] {
				s = append(s, c.text)
			}
			return
		}
		m.ct, m.cl, m.cc, m.loc = one("contenttype"), one("contentlanguage"), one("contentcharset"), one("contentlocation")
		m.ce, m.cf = many("contentencoding"), many("contentfeatures")
		f, err := strconv.ParseFloat(one("sourcequality"), 64)
		if err != nil {
			return nil, err
		}
		m.sq = f
		out = append(out, m)
	}
	return out, nil
}

// checkList tells whether the body lists the representations completely, in order.
func checkList(ct string, body []byte, reps []*Rep) string {
	ms, err := decodeList(ct, body)
	if err != nil {
		return fmt.Sprintf("list of type %q is not readable: %v: %q", ct, err, body)
	}
	if len(ms) != len(reps) {
		return fmt.Sprintf("list has %d entries for %d representations", len(ms), len(reps))
	}
	for i, m := range ms {
		if !m.same(metaOf(reps[i])) {
			return fmt.Sprintf("list entry %d is %+v, the representation is %+v", i, m, metaOf(reps[i]))
		}
	}
	return ""
}

// newList is a list constructor for any type.
func newList(ct string, tweak func(l *representation.List)) representation.ListConstructor {
	return func(reps ...representation.Representation) representation.Representation {
		l := representation.List{}
		l.SetContentType(ct)
		l.SetContentCharset("ascii")
		l.SetContentEncoding([]string{"identity"})
		l.SetContentLanguage("en-US")
		if tweak != nil {
			tweak(&l)
		}
		l.SetRepresentations(reps...)
		return &l
	}
}

package main

import (
	"fmt"
	"strings"

	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P06",
		Rule: "An execution either takes one accepted schema through JSON and back and compares definitions, hash and text, or reads one JSON document and compares the outcome with the rules for RIDL; a state is a distinct schema or rejection.",
		Assumptions: []string{
			"documents are compositions and single or double edits of the menu of constructs",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p06Compose(w), p06Sizes(w), p06Edits(w), p06Edits2(w), p06Exprs(w), p06Chars(w), p06Ridl(), p06Values()}
		},
	})
}

// roundTrip takes a schema through JSON and back, twice.
func roundTrip(w *engine.W, s *schema.WebRPCSchema) bool {
	w.Step(1)
	before := Real(s).String()
	w.State(before)
	j, err := s.ToJSON()
	if err != nil {
		w.Fail("tojson", "ToJSON failed: %v", err)
		return false
	}
	h, err := s.SchemaHash()
	if err != nil || h == "" {
		w.Fail("hash", "SchemaHash failed: %q, %v", h, err)
		return false
	}
	if after := Real(s).String(); after != before {
		w.Fail("mutated", "writing the schema changed it:\n%s", diff(before, after))
		return false
	}
	s2, err := parseJSON(j)
	if err != nil {
		w.Fail("reread", "the JSON form was rejected: %v\n%s", err, j)
		return false
	}
	if got := Real(s2).String(); got != before {
		w.Fail("roundtrip", "the schema read back differs:\n%s", diff(before, got))
		return false
	}
	if j2, err := s2.ToJSON(); err != nil || j2 != j {
		w.Fail("rewrite", "the JSON text differs when written again (%v):\n%s", err, diff(j, j2))
		return false
	}
	if h2, err := s2.SchemaHash(); err != nil || h2 != h {
		w.Fail("hash-differs", "hash %s became %s (%v)", h, h2, err)
		return false
	}
	return true
}

// forms runs a document as RIDL and as JSON (types in canonical or written
// order), compares both with the reference, and takes what they give through JSON
// again.
func forms(w *engine.W, build func() *Doc, ridl, json bool) {
	if ridl && w.Mine(func() string { return build().RIDL() }) {
		d := build()
		want, ok := d.Expect()
		if o, good := expect(w, d.RIDL(), want, ok); good && o.OK {
			roundTrip(w, o.S)
		}
	}
	if json && w.Mine(func() string { return build().JSON(false) }) {
		if o, good := runJSON(w, build()); good && o.OK {
			roundTrip(w, o.S)
		}
	}
	if ridl && json && w.Mine(func() string { return "both forms\n" + build().RIDL() + "\n" + build().JSON(true) }) {
		s1, e1 := parseText(build().RIDL())
		s2, e2 := parseJSON(build().JSON(true))
		w.Step(1)
		if (e1 == nil) != (e2 == nil) {
			w.Fail("forms-disagree", "RIDL: %v, JSON: %v", e1, e2)
		} else if e1 == nil {
			if a, b := Real(s1).String(), Real(s2).String(); a != b {
				w.Fail("forms-differ", "the forms give different schemas:\n%s", diff(a, b))
			}
			h1, _ := s1.SchemaHash()
			h2, _ := s2.SchemaHash()
			same := true // JSON written by hand may say null where RIDL says []
			if j1, _ := s1.ToJSON(); true {
				j2, _ := s2.ToJSON()
				same = j1 == j2
			}
			if same != (h1 == h2) {
				w.Fail("hash", "hashes %s and %s, JSON equal: %v", h1, h2, same)
			}
		}
	}
}

func p06Compose(w *engine.W) *engine.Family {
	k := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "compose", Bound: fmt.Sprintf("all sequences of up to %d definitions out of a menu of %d, as RIDL and JSON", k, menuSize),
		Run: func(x *engine.X, w *engine.W) {
			n := x.Choose(k + 1)
			var ks []int
			heads := 0
			for i := 0; i < n; i++ {
				c := x.Choose(menuSize)
				if c == 18 {
					heads++
				}
				ks = append(ks, c)
			}
			forms(w, func() *Doc {
				d := NewDoc(support()...)
				for i, c := range ks {
					d.Add(menu(c, i))
				}
				return d
			}, true, heads < 2)
		},
	}
}

func p06Sizes(w *engine.W) *engine.Family {
	n := engine.Pick(w, 30, 150)
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("0..%d repetitions of each of %d constructs, and each pair of constructs repeated 0..2 times", n, len(dims)),
		Run: func(x *engine.X, w *engine.W) {
			a := x.Choose(len(dims))
			b := x.Choose(len(dims) + 1)
			if b == len(dims) {
				k := x.Choose(n + 1)
				forms(w, func() *Doc { return NewDoc(dims[a].build(k, 0)...) }, true, true)
				return
			}
			i, j := x.Choose(3), x.Choose(3)
			forms(w, func() *Doc { return NewDoc(append(dims[a].build(i, 0), dims[b].build(j, 1)...)...) }, true, true)
		},
	}
}

func p06Edits(w *engine.W) *engine.Family {
	n := mutate(rich(), -1)
	return &engine.Family{
		Name: "edits", Bound: fmt.Sprintf("all %d single edits of a document with every construct, as RIDL and JSON", n),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(n)
			build := func() *Doc { d := rich(); mutate(d, k); return d }
			forms(w, build, ridlable(build()), jsonable(build()))
		},
	}
}

func p06Edits2(w *engine.W) *engine.Family {
	docs := []func() *Doc{}
	for k := 0; k < menuSize; k++ {
		if w.Thorough() || mutate(smallDoc(k), -1) <= 110 {
			docs = append(docs, func() *Doc { return smallDoc(k) })
		}
	}
	return &engine.Family{
		Name: "double-edits", Bound: fmt.Sprintf("all pairs of edits of %d small documents, one per construct, as RIDL and JSON", len(docs)),
		Run: func(x *engine.X, w *engine.W) {
			doc := docs[x.Choose(len(docs))]
			n := mutate(doc(), -1)
			i := x.Choose(n)
			d := doc()
			mutate(d, i)
			j := x.Choose(mutate(d, -1))
			build := func() *Doc { d := doc(); mutate(d, i); mutate(d, j); return d }
			d = build()
			forms(w, build, ridlable(d), jsonable(d))
		},
	}
}

func p06Exprs(w *engine.W) *engine.Family {
	es := exprs(2, []string{"string", "bigint", "St", "Al", "Ae", "En", "As", "Nope"}, []*TE{N("string"), N("int16"), N("En"), N("Ae"), N("St")})
	return &engine.Family{
		Name: "types", Bound: fmt.Sprintf("%d type expressions in every position, as RIDL and JSON", len(es)),
		Run: func(x *engine.X, w *engine.W) {
			t := es[x.Choose(len(es))]
			pos := x.Choose(4)
			after := x.Bool()
			forms(w, func() *Doc { return p05Doc(t, pos, after) }, true, true)
		},
	}
}

// charDoc is a JSON document with the same text at every position that takes any
// text.
func charDoc(s string, pos int) string {
	q := jstr(s)
	p := func(i int, def string) string {
		if i == pos || pos < 0 {
			return q
		}
		return jstr(def)
	}
	// a type's name and the references to it carry the text together
	tn := jstr("Ty")
	list, mapv := jstr("[]Ty"), jstr("map<Ek,Ty>")
	ek := jstr("Ek")
	if pos == 0 || pos < 0 {
		tn, list, mapv = jstr("T"+s), jstr("[]T"+s), jstr("map<Ek,T"+s+">")
	}
	if pos == 1 && !strings.Contains(s, ",") {
		ek, mapv = jstr("E"+s), jstr("map<E"+s+",Ty>")
	}
	en := p(2, "Er")
	if pos == 2 || pos < 0 {
		en = jstr("E" + s + "x")
	}
	return `{"webrpc":"v1","name":` + p(3, "n") + `,"version":` + p(4, "1") + `,"types":[` +
		`{"kind":"enum","name":` + ek + `,"type":"string","fields":[{"name":"a","value":` + p(5, "v") + `,"comments":[` + p(6, "c") + `]}]},` +
		`{"kind":"alias","name":"Al","type":` + list + `,"meta":[{` + p(7, "k") + `:` + p(8, "v") + `}],"comments":["",` + p(9, "c") + `]},` +
		`{"kind":"struct","name":` + tn + `,"comments":[` + p(10, "c") + `],"fields":[{"name":"f","type":` + mapv + `,"optional":true,"meta":[{"a":"b"},{` + p(11, "k") + `:` + p(12, "v") + `}],"comments":[` + p(13, "c") + `]}]}],` +
		`"errors":[{"code":1,"name":` + en + `,"message":` + p(14, "m") + `,"httpStatus":404}],` +
		`"services":[{"name":` + p(15, "S") + `,"comments":[` + p(16, "c") + `],"methods":[{"name":` + p(17, "M") + `,"comments":[` + p(18, "c") + `],"annotations":{` + p(19, "a") + `:{"annotationType":` + p(19, "a") + `,"value":` + p(20, "v") + `}},` +
		`"inputs":[{"name":` + p(21, "i") + `,"type":` + tn + `,"optional":true}],"outputs":[{"name":` + p(22, "o") + `,"type":` + mapv + `}],"errors":[` + en + `]}]}]}`
}

func p06Chars(w *engine.W) *engine.Family {
	special := []string{"", " ", "\"", "\\", "\n", "\t", "\x00", "\x1f", "\x7f", "<", ">", "&", "'", "/", "\u00e9", "\u2028", "\u2029", "\ufffd", "\ufeff", "\U0001F600", "{}", "[", "]", ",", ":", "%", "\\u0041", "\\n", "\\\"", "A", "map<", "null"}
	top := engine.Pick(w, 0x3100, 0x110000)
	n := len(special) + len(special)*len(special)
	return &engine.Family{
		Name: "characters", Bound: fmt.Sprintf("every Unicode scalar below %#x at all text positions together, and all pairs of %d special texts at each of 23 text positions (JSON)", top, len(special)),
		Run: func(x *engine.X, w *engine.W) {
			if x.Bool() {
				pos := x.Choose(23)
				i := x.Choose(n)
				var s string
				if i < len(special) {
					s = special[i]
				} else {
					i -= len(special)
					s = special[i/len(special)] + special[i%len(special)]
				}
				if !w.Mine(func() string { return charDoc(s, pos) }) {
					return
				}
				p06Char(w, s, pos, false)
				return
			}
			from := 64 * x.Choose(top/64)
			if !w.Mine(func() string { return fmt.Sprintf("U+%04X..U+%04X in\n%s", from, from+63, charDoc("?", -1)) }) {
				return
			}
			for r := rune(from); r < rune(from+64); r++ {
				if r < 0xd800 || r > 0xdfff {
					if !p06Char(w, string(r), -1, true) {
						return
					}
				}
			}
		},
	}
}

func p06Char(w *engine.W, s string, pos int, must bool) bool {
	sc, err := parseJSON(charDoc(s, pos))
	if err != nil {
		w.State("rejected")
		// A blank name, version or the like, or a type name that reads as another
		// expression, is rejected.
		if must && s != "," && strings.TrimSpace(s) != "" {
			w.Fail("rejected", "%q was rejected: %v", s, err)
			return false
		}
		return true
	}
	return roundTrip(w, sc)
}

// p06Ridl puts any bytes in RIDL strings and comments and takes the result
// through JSON.
func p06Ridl() *engine.Family {
	texts := []string{"\xff", "\xc3", "a\xe2\x82", "\xed\xa0\x80", "\u00e9", "\ufffd", "\u2028", "\x01", "\x7f", "<b>&", "\\n\\t\\\"", "{\"a\":1}", "\U0010ffff", "'", "%s", "\x00"}
	return &engine.Family{
		Name: "ridl-bytes", Bound: fmt.Sprintf("%d texts, invalid UTF-8 included, in each kind of RIDL string and comment, through JSON and back", len(texts)),
		Run: func(x *engine.X, w *engine.W) {
			t := texts[x.Choose(len(texts))]
			pos := x.Choose(8)
			text := func() string {
				p := [8]string{"n", "m", "v", "v", "v", "c", "c", "c"}
				p[pos] = "a" + t + "b"
				return fmt.Sprintf("webrpc = v1\nname = \"%s\"\nversion = v1\nerror 1 E \"%s\"\nenum En: string\n  - a = \"%s\"\n# %s\nstruct S # %s\n  - a: int # %s\n    + k = \"%s\"\nservice V\n  @an:\"%s\"\n  - M()\n", p[0], p[1], p[2], p[5], p[6], p[7], p[3], p[4])
			}
			if !w.Mine(text) {
				return
			}
			s, err := parseText(text())
			if err == nil {
				roundTrip(w, s)
			} else {
				w.Step(1)
			}
		},
	}
}

// p06Values reads JSON values the RIDL form never produces.
func p06Values() *engine.Family {
	vals := []string{`"v"`, `1`, `-0.5`, `1e300`, `12345678901234567890`, `true`, `null`, `[]`, `[1,"a",null]`, `{}`, `{"b":1,"a":[{"z":null,"y":"x"}]}`, `""`}
	return &engine.Family{
		Name: "json-values", Bound: fmt.Sprintf("%d JSON values as metadata of fields and aliases, alone and in pairs of keys", len(vals)),
		Run: func(x *engine.X, w *engine.W) {
			a, b := vals[x.Choose(len(vals))], vals[x.Choose(len(vals))]
			shape := x.Choose(3)
			text := func() string {
				m := []string{`[{"a":` + a + `},{"b":` + b + `}]`, `[{"b":` + a + `,"a":` + b + `}]`, `[{},{"a":` + a + `},{"a":` + b + `},null]`}[shape]
				return `{"webrpc":"v1","types":[{"kind":"alias","name":"A","type":"int","meta":` + m + `},{"kind":"struct","name":"B","fields":[{"name":"a","type":"A","meta":` + m + `}]}]}`
			}
			if !w.Mine(text) {
				return
			}
			s, err := parseJSON(text())
			if err != nil {
				w.Fail("rejected", "%v", err)
				return
			}
			roundTrip(w, s)
		},
	}
}

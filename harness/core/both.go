package main

import (
	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

// written is the document with its types in the order written, as JSON keeps them.
func (d *Doc) written() *Doc {
	c := *d
	c.Written = true
	return &c
}

func parseJSON(text string) (*schema.WebRPCSchema, error) {
	s, err := schema.ParseSchemaJSON([]byte(text))
	if err != nil {
		s = nil // the schema returned together with a validation error is not a result
	}
	return s, err
}

// runJSON reads the JSON form of a document and compares with the reference.
func runJSON(w *engine.W, d *Doc) (Outcome, bool) { return judgeJSON(w, around(d)) }

func judgeJSON(w *engine.W, d *Doc) (Outcome, bool) {
	d = d.written()
	s, err := parseJSON(d.JSON(false))
	want, ok := d.Expect()
	return judge(w, s, err, want, ok)
}

// runBoth checks a document in its RIDL and JSON forms as one case each.
func runBoth(w *engine.W, bare func() *Doc) {
	build := func() *Doc { return around(bare()) }
	if w.Mine(func() string { return build().RIDL() }) {
		d := build()
		want, ok := d.Expect()
		expect(w, d.RIDL(), want, ok)
	}
	if w.Mine(func() string { return build().JSON(false) }) {
		judgeJSON(w, build())
	}
}

// strings over an alphabet, up to a length.
func words(alphabet []string, min, max int) []string {
	level := []string{""}
	var out []string
	for n := 0; n <= max; n++ {
		if n >= min {
			out = append(out, level...)
		}
		var next []string
		for _, s := range level {
			for _, a := range alphabet {
				next = append(next, s+a)
			}
		}
		level = next
	}
	return out
}

package main

import (
	"fmt"
	"strings"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P03",
		Rule: "An execution renders one abstract document in one layout (or one order of definitions), parses it and compares the schema, apart from doc comments, with the reference; a state is a distinct expected schema together with the layout text.",
		Assumptions: []string{
			"layouts differ from the default at a bounded number of places, or uniformly by kind of place",
			"spacing alternatives are those the grammar allows (harness/core/render.go); space is not added where the language forbids it (before ':' or '?', inside '[]', inside succinct parentheses)",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p03Single(w), p03Pairs(w), p03Uniform(w), p03Orders(w), p03Heads(), p03Comments(w), p03Split(w)}
		},
	})
}

// same checks a text against a document, ignoring doc comments.
func same(w *engine.W, d *Doc, text string) {
	w.Step(1)
	s, err := parseText(text)
	o := outcome(s, err)
	want, ok := d.Expect()
	w.State(text)
	if !ok {
		w.Fail("harness", "the harness generated an invalid document")
		return
	}
	if !o.OK {
		w.Fail("rejected", "rejected in this layout: %v", err)
		return
	}
	if exp := want.NoDocs(); exp != o.NoDc {
		w.Fail("differs", "the schema depends on layout:\n%s", diff(exp, o.NoDc))
	}
}

func smallDocs() []*Doc {
	var out []*Doc
	for k := 0; k < menuSize; k++ {
		out = append(out, smallDoc(k))
	}
	return out
}

func p03Single(w *engine.W) *engine.Family {
	d := rich()
	return &engine.Family{
		Name: "one-place", Budget: 1, Bound: "every alternative at every single place of a document with every construct",
		Run: func(x *engine.X, w *engine.W) {
			text := d.Layout(func(_ byte, n int) int { return x.Dev(n) })
			if w.Mine(func() string { return text }) {
				same(w, d, text)
			}
		},
	}
}

func p03Pairs(w *engine.W) *engine.Family {
	docs := smallDocs()
	b := engine.Pick(w, 2, 3)
	return &engine.Family{
		Name: "few-places", Budget: b, Bound: fmt.Sprintf("every combination of alternatives at up to %d places of %d small documents, one per construct", b, len(docs)),
		Run: func(x *engine.X, w *engine.W) {
			d := docs[x.Choose(len(docs))]
			text := d.Layout(func(_ byte, n int) int { return x.Dev(n) })
			if w.Mine(func() string { return text }) {
				same(w, d, text)
			}
		},
	}
}

func p03Uniform(w *engine.W) *engine.Family {
	docs := append(smallDocs(), rich())
	kinds := []struct {
		k byte
		n int
	}{{'i', 4}, {'z', 4}, {'o', 4}, {'r', 4}, {'q', 2}, {'t', 3}, {'n', 2}, {'b', 4}, {'a', 5}, {'e', 6}, {'f', 3}, {'l', 4}}
	b := engine.Pick(w, 3, 6)
	return &engine.Family{
		Name: "uniform", Budget: b, Bound: fmt.Sprintf("up to %d kinds of place each rewritten uniformly through %d documents", b, len(docs)),
		Run: func(x *engine.X, w *engine.W) {
			di := x.Choose(len(docs))
			var sel [256]int
			left := 4
			for _, k := range kinds {
				sel[k.k] = x.Dev(k.n)
				if sel[k.k] != 0 {
					left--
				}
			}
			if di == len(docs)-1 && left < 2 && !w.Thorough() {
				return // the big document: up to two kinds only
			}
			d := docs[di]
			lay := func(k byte, n int) int { return sel[k] % n }
			if w.Mine(func() string { return d.Layout(lay) }) {
				same(w, d, d.Layout(lay))
			}
		},
	}
}

// p03Orders permutes definitions of different kinds, keeping the order within a
// kind.
func p03Orders(w *engine.W) *engine.Family {
	groups := [][]any{
		{&Alias{Name: "Al", T: L(N("St"))}, &Alias{Name: "Bl", T: N("En"), Meta: []Meta{{Key: "k", Val: W("v")}}}},
		{&Enum{Name: "En", T: "uint8", Mem: []Member{{Name: "A"}, {Name: "B", Val: lp(W("9"))}}}},
		{&Struct{Name: "St", Fields: []Field{{Name: "a", T: N("Al")}, {Name: "m", T: M("Bl", N("Su")), Meta: []Meta{{Key: "json", Val: W("mm")}}}}}, &Struct{Name: "Su"}},
		{&Err{Code: "7", Name: "Ea", Msg: Q("a")}, &Err{Code: "6", Name: "Eb", Msg: W("b"), HTTP: "500"}},
		{&Svc{Name: "Sv", Methods: []Method{{Name: "M", Ann: []Ann{{Name: "a", Val: lp(W("v"))}}, In: []Arg{{Name: "x", T: N("Bl")}}, HasOut: true, Out: []Arg{{Name: "y", T: N("Su")}}, Errs: []string{"Eb", "Ea"}}, {Name: "S", Succ: "Su", HasOut: true, SuccOut: "St"}}}},
	}
	if w.Thorough() {
		groups[4] = append(groups[4], &Svc{Name: "Tv", Methods: []Method{{Name: "M", Errs: []string{"Ea"}}}})
	}
	head := []any{&Head{Key: "webrpc", Val: W("v1")}, &Head{Key: "name", Val: Q("x y")}, &Head{Key: "version", Val: W("v1")}}
	groups = append(groups, []any{head})
	return &engine.Family{
		Name: "orders", Bound: "every order of a document's definitions that keeps the order within each kind",
		Run: func(x *engine.X, w *engine.W) {
			d := interleave(x, groups)
			if w.Mine(func() string { return d.RIDL() }) {
				same(w, d, d.RIDL())
			}
		},
	}
}

func interleave(x *engine.X, groups [][]any) *Doc {
	d := &Doc{}
	at := make([]int, len(groups))
	for {
		var open []int
		for g := range groups {
			if at[g] < len(groups[g]) {
				open = append(open, g)
			}
		}
		if len(open) == 0 {
			return d
		}
		g := open[x.Choose(len(open))]
		it := groups[g][at[g]]
		at[g]++
		if l, ok := it.([]any); ok {
			d.Add(l...)
		} else {
			d.Add(it)
		}
	}
}

func p03Heads() *engine.Family {
	groups := [][]any{
		{&Head{Key: "webrpc", Val: W("v1")}},
		{&Head{Key: "name", Val: Q("x")}},
		{&Head{Key: "version", Val: W("v1")}},
		{&Head{Key: "basepath", Val: Q("/x")}},
		{&Alias{Name: "Al", T: L(N("St"))}},
		{&Struct{Name: "St", Fields: []Field{{Name: "a", T: N("Al")}}}},
		{&Err{Code: "7", Name: "Ea", Msg: Q("a")}},
		{&Svc{Name: "Sv", Methods: []Method{{Name: "M", Errs: []string{"Ea"}}}}},
	}
	return &engine.Family{
		Name: "header-orders", Bound: "every order of four headers and four definitions",
		Run: func(x *engine.X, w *engine.W) {
			d := interleave(x, groups)
			if w.Mine(func() string { return d.RIDL() }) {
				same(w, d, d.RIDL())
			}
		},
	}
}

// p03Comments puts comments with every kind of content at every line.
func p03Comments(w *engine.W) *engine.Family {
	texts := []string{"", " ", "x", " struct X", " - a: string", " @a", "!", "!x", "#", "##x", " \"", " \"a", " \"a\" b", "\\", " \\\"", " =>", " ()", "\x00", " \u00e9", " //", " # - x", " a # b", " error 1 A \"m\"", "\t", " [", " map<", " 'it''s", " HTTP 400", " + json = x", " name = y", " import x.ridl", " }{", "\xff", " \u2028x", " a\x00b"}
	d := rich()
	ls := d.Lines()
	n := 0
	for _, l := range ls {
		if l.kind != "blank" && l.kind != "comment" {
			n++
		}
	}
	return &engine.Family{
		Name: "comment-content", Bound: fmt.Sprintf("%d comment texts, above or beside each of %d lines, or everywhere", len(texts), n),
		Run: func(x *engine.X, w *engine.W) {
			t := texts[x.Choose(len(texts))]
			beside := x.Bool()
			at := x.Choose(n + 1)
			build := func() string {
				var b strings.Builder
				i := 0
				for _, l := range ls {
					here := l.kind != "blank" && l.kind != "comment"
					on := here && (at == n || i == at)
					if here {
						i++
					}
					if on && !beside {
						b.WriteString("  #" + t + "\n")
					}
					l.write(&b, nil)
					if on && beside && l.trail == nil {
						b.WriteString(" #" + t)
					}
					b.WriteString("\n")
				}
				return b.String()
			}
			if w.Mine(func() string { return build() }) {
				same(w, d, build())
			}
		},
	}
}

// p03Split pads the document so that it grows through sizes and positions.
func p03Split(w *engine.W) *engine.Family {
	d := rich()
	text := d.RIDL()
	max := engine.Pick(w, 2000, 20000)
	pads := []string{"\n", " \n", "# x\n", "\t\t\n", "\r\n", "# a longer comment line, with words\n"}
	return &engine.Family{
		Name: "padding", Bound: fmt.Sprintf("0..%d lines of padding of %d kinds in front of the document", max, len(pads)),
		Run: func(x *engine.X, w *engine.W) {
			p := pads[x.Choose(len(pads))]
			n := x.Choose(41)
			if n > 20 {
				n = 20 + (n-20)*max/20
			}
			if w.Mine(func() string { return fmt.Sprintf("%d x %q, then\n%s", n, p, text) }) {
				same(w, d, strings.Repeat(p, n)+"\n"+text)
			}
		},
	}
}

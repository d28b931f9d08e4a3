package main

import (
	"fmt"
	"strings"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P26",
		Rule: "An execution parses one document with annotated methods and compares acceptance and every method's annotations with the reference; a state is a distinct expected schema or rejection.",
		Assumptions: []string{
			"annotation names that differ in case are different names",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p26One(w), p26Methods(w), p26Services(w), p26Distance(w), p26Values(w), p26Orphans(w), p26Between(w), p26Counts(w), p26Forms(), p26Layout(w)}
		},
	})
}

var p26Vals = []*Lit{nil, lp(W("v")), lp(Q("q x, y"))}

func p26Anns(x *engine.X, names []string, n int) (out []Ann) {
	for i, k := 0, x.Choose(n+1); i < k; i++ {
		a := Ann{Name: names[x.Choose(len(names))], Val: p26Vals[x.Choose(len(p26Vals))]}
		if i > 0 {
			a.NL = x.Bool()
		}
		out = append(out, a)
	}
	return
}

// jsonAnn tells that the annotations can be written in JSON.
func jsonAnn(as []Ann) bool {
	seen := map[string]bool{}
	for _, a := range as {
		if seen[a.Name] {
			return false
		}
		seen[a.Name] = true
	}
	return true
}

func p26Run(w *engine.W, ok bool, build func() *Doc) {
	if ok {
		runBoth(w, build)
		return
	}
	if w.Mine(func() string { return build().RIDL() }) {
		d := build()
		want, ok := d.Expect()
		expect(w, d.RIDL(), want, ok)
	}
}

// p26One: every sequence of annotations on one method between others.
func p26One(w *engine.W) *engine.Family {
	n := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "one-method", Bound: fmt.Sprintf("all sequences of up to %d annotations of 4 names with 3 forms of value, each on the same or a new line, on a method between two others", n),
		Run: func(x *engine.X, w *engine.W) {
			as := p26Anns(x, []string{"a", "b", "A", "ab"}, n)
			p26Run(w, jsonAnn(as), func() *Doc {
				return NewDoc(&Svc{Name: "Sv", Methods: []Method{{Name: "Before"}, {Name: "Me", Ann: as}, {Name: "After"}}})
			})
		},
	}
}

// p26Methods: annotations spread over methods.
func p26Methods(w *engine.W) *engine.Family {
	n := engine.Pick(w, 1, 2)
	names := []string{"a", "b"}
	k := engine.Pick(w, 4, 3)
	return &engine.Family{
		Name: "methods", Bound: fmt.Sprintf("all arrangements of up to %d annotations of %d names, with 3 forms of value, on each of up to %d methods; repeated ones included", n, len(names), k),
		Run: func(x *engine.X, w *engine.W) {
			var ms []Method
			ok := true
			for i, c := 0, 1+x.Choose(k); i < c; i++ {
				as := p26Anns(x, names, n)
				ok = ok && jsonAnn(as)
				ms = append(ms, Method{Name: fmt.Sprintf("Me%d", i), Ann: as})
			}
			p26Run(w, ok, func() *Doc { return NewDoc(&Svc{Name: "Sv", Methods: ms}) })
		},
	}
}

// p26Services: and over services.
func p26Services(w *engine.W) *engine.Family {
	n := engine.Pick(w, 2, 3)
	return &engine.Family{
		Name: "services", Bound: fmt.Sprintf("all arrangements of up to 2 valueless or valued annotations of 2 names on each method of %d services of 2 methods", n),
		Run: func(x *engine.X, w *engine.W) {
			var svcs []any
			ok := true
			for i := 0; i < n; i++ {
				v := &Svc{Name: fmt.Sprintf("Sv%d", i)}
				for j := 0; j < 2; j++ {
					var as []Ann
					for c := x.Choose(3); c > 0; c-- {
						as = append(as, Ann{Name: []string{"a", "b"}[x.Choose(2)], Val: p26Vals[x.Choose(2)], NL: c%2 == 0})
					}
					ok = ok && jsonAnn(as)
					v.Methods = append(v.Methods, Method{Name: fmt.Sprintf("Me%d", j), Ann: as})
				}
				svcs = append(svcs, v)
			}
			p26Run(w, ok, func() *Doc { return NewDoc(svcs...) })
		},
	}
}

// p26Distance: a repeated name is found at any distance, on any lines.
func p26Distance(w *engine.W) *engine.Family {
	max := engine.Pick(w, 9, 16)
	return &engine.Family{
		Name: "distance", Bound: fmt.Sprintf("up to %d annotations on a method, with two or no equal names at any two positions, all lines or any one line break", max),
		Run: func(x *engine.X, w *engine.W) {
			n := 1 + x.Choose(max)
			i := x.Choose(n)
			j := i + x.Choose(n-i)
			br := x.Choose(n + 1)
			where := x.Choose(3)
			va, vb := x.Choose(3), x.Choose(3)
			build := func() *Doc {
				var as []Ann
				for k := 0; k < n; k++ {
					as = append(as, Ann{Name: fmt.Sprintf("n%d", k), NL: k == br || br == n})
				}
				as[i].Val = p26Vals[va]
				as[j].Name, as[j].Val = as[i].Name, p26Vals[vb]
				ms := []Method{{Name: "A"}, {Name: "B"}, {Name: "C"}}
				ms[where].Ann = as
				return NewDoc(&Svc{Name: "Sv", Methods: ms})
			}
			p26Run(w, i == j, build)
		},
	}
}

// p26Values: names and values, with what follows on the line.
func p26Values(w *engine.W) *engine.Family {
	names := words([]string{"a", "B", "7", "_"}, 1, engine.Pick(w, 3, 4))
	names = append(names, "stream", "errors", "service", "map", "proxy", "HTTP", "a-b", "a.b")
	bw := words([]string{"a", "1", "_", ".", "-", "/"}, 1, engine.Pick(w, 3, 4))
	qs := words([]string{"a", " ", "@", ":", "#", "\"", ",", "-", "/", "\n"}, 1, 2)
	type nv struct {
		n string
		v *Lit
	}
	var all []nv
	for _, n := range names {
		all = append(all, nv{n, nil}, nv{n, lp(W("v"))})
	}
	for _, v := range wordValues {
		if bareName(v) {
			all = append(all, nv{v, nil}, nv{v, lp(W("v"))})
		}
		all = append(all, nv{"k", lp(Q(v))})
		if bare(v) {
			all = append(all, nv{"k", lp(W(v))})
		}
	}
	for _, b := range bw {
		all = append(all, nv{"k", &Lit{V: b, Q: !bare(b)}})
	}
	qs = append(qs, markValues...)
	for _, q := range qs {
		all = append(all, nv{"k", lp(Q(q))})
	}
	return &engine.Family{
		Name: "values", Bound: fmt.Sprintf("%d names and values, alone, before, after and around another annotation", len(all)),
		Run: func(x *engine.X, w *engine.W) {
			e := all[x.Choose(len(all))]
			k := x.Choose(5)
			if !bareName(e.n) {
				return
			}
			runBoth(w, func() *Doc {
				a := Ann{Name: e.n, Val: e.v}
				o := Ann{Name: "other", Val: lp(W("o"))}
				var as []Ann
				switch k {
				case 0:
					as = []Ann{a}
				case 1:
					as = []Ann{a, o}
				case 2:
					as = []Ann{o, a}
				case 3:
					o.NL = true
					as = []Ann{a, o}
				case 4:
					a.NL = true
					as = []Ann{o, a}
				}
				return NewDoc(&Svc{Name: "Sv", Methods: []Method{{Name: "Me", Ann: as}, {Name: "Next", Ann: []Ann{{Name: "x"}}}}})
			})
		},
	}
}

// bareName tells that a name is a single plain word.
func bareName(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i]; !(asciiLetter(c) || i > 0 && (c >= '0' && c <= '9' || c == '_')) {
			return false
		}
	}
	return true
}

// p26Orphans: annotations that no method follows.
func p26Orphans(w *engine.W) *engine.Family {
	anns := []string{"", "@a", "@a:v", "@a @b", "@a\n  @b:\"q\"", "@a # c", "@"}
	after := []string{"", "\n", "\n\n", "\n# end", "\nservice Tv\n  - Me()\n", "\n\nstruct St\n", "\ntype Al: int\n", "\nenum En: int\n  - A\n", "\nerror 1 Ea \"a\"\n", "\nname = x\n", "\nimport x.ridl\n", "\n- Me()\n", "\n\n\n  - Me()\n", "\n  # c\n  - Me()\n", "\n+ x = y\n"}
	before := []string{"service Sv\n", "service Sv\n  - M1()\n", "service Sv\n  @x\n  - M1()\n", "struct Su\n", "type Ax: int\n", "enum Ex: int\n  - A\n", "", "error 2 Eb \"b\"\n", "service Sv\n  - M1()\nstruct Su\n"}
	return &engine.Family{
		Name: "orphans", Bound: fmt.Sprintf("%d kinds of annotation lines after each of %d beginnings and before each of %d endings; accepted only when a method follows within a service", len(anns), len(before), len(after)),
		Run: func(x *engine.X, w *engine.W) {
			a, b, c := x.Choose(len(anns)), x.Choose(len(before)), x.Choose(len(after))
			if a == 0 {
				return
			}
			text := "webrpc = v1\nversion = v1\n" + before[b] + "  " + anns[a] + after[c]
			if !w.Mine(func() string { return text }) {
				return
			}
			w.Step(1)
			follows := c >= 11 && c <= 13
			s, err := parseFS(memFS{"a.ridl": text, "x.ridl": "webrpc = v1\n"}, "a.ridl")
			ok := follows && b <= 2 && a != 6
			w.State(fmt.Sprint(a, b, c, ok))
			if ok != (err == nil) {
				w.Fail("orphans", "accepted %v, want %v: %v", err == nil, ok, err)
				return
			}
			if !ok {
				return
			}
			want := []string{"", "a=", "a=v", "a= b=", "a= b=q", "a="}[a]
			ms := Real(s).Svcs[0].Methods
			last := ms[len(ms)-1]
			var got []string
			for _, kv := range last.Ann {
				got = append(got, kv.K+"="+kv.V)
			}
			if last.Name != "Me" || strings.Join(got, " ") != want {
				w.Fail("differs", "method %s has annotations %v, want %s on Me", last.Name, got, want)
			}
			if len(ms) == 2 && len(ms[0].Ann) != b-1 {
				w.Fail("differs", "the method before has annotations %v", ms[0].Ann)
			}
		},
	}
}

// p26Between: blank lines and comments between annotations and their method.
func p26Between(w *engine.W) *engine.Family {
	fill := []string{"", "\n", "# c\n", " \t\n", "\n\n\n\n", "  # @x:y\n", "# - No()\n"}
	n := 4
	return &engine.Family{
		Name: "between", Bound: fmt.Sprintf("each of %d kinds of blank and comment lines at each of %d places around the annotations of two methods", len(fill), n+1),
		Run: func(x *engine.X, w *engine.W) {
			ls := []string{"service Sv\n", "  @a @b:v\n", "  @c:\"q\"\n", "  - Ma()\n", "  @a\n", "  - Mb()\n"}
			var b strings.Builder
			b.WriteString("webrpc = v1\nversion = v1\n" + ls[0])
			for _, l := range ls[1:] {
				b.WriteString(fill[x.Choose(len(fill))])
				b.WriteString(l)
			}
			if w.Mine(b.String) {
				d := (&Doc{}).Add(&Head{Key: "webrpc", Val: W("v1")}, &Head{Key: "version", Val: W("v1")},
					&Svc{Name: "Sv", Methods: []Method{{Name: "Ma", Ann: []Ann{{Name: "a"}, {Name: "b", Val: lp(W("v"))}, {Name: "c", Val: lp(Q("q")), NL: true}}}, {Name: "Mb", Ann: []Ann{{Name: "a"}}}}})
				same(w, d, b.String())
			}
		},
	}
}

func p26Counts(w *engine.W) *engine.Family {
	max := engine.Pick(w, 60, 400)
	return &engine.Family{
		Name: "counts", Bound: fmt.Sprintf("0..%d annotations on one line or on lines of their own, the last one repeating the first or not; and 0..%d annotated methods", max, max),
		Run: func(x *engine.X, w *engine.W) {
			n, k := x.Choose(max+1), x.Choose(5)
			p26Run(w, k < 2 || k == 4 || n < 2, func() *Doc {
				var as []Ann
				for i := 0; i < n; i++ {
					as = append(as, Ann{Name: fmt.Sprintf("n%d", i), Val: p26Vals[i%3], NL: k%2 == 1})
				}
				if (k == 2 || k == 3) && n > 1 {
					as[n-1].Name = "n0"
				}
				if k == 4 {
					v := &Svc{Name: "Sv", Methods: []Method{{Name: "First"}}}
					for _, a := range as {
						v.Methods = append(v.Methods, Method{Name: "M" + a.Name, Ann: []Ann{{Name: "same", Val: a.Val}}})
					}
					return NewDoc(v)
				}
				return NewDoc(&Svc{Name: "Sv", Methods: []Method{{Name: "Me", Ann: as}, {Name: "Next"}}})
			})
		},
	}
}

// p26Forms: annotations on every form of method.
func p26Forms() *engine.Family {
	return &engine.Family{
		Name: "forms", Bound: "5 sets of annotations on all pairs of 14 forms of methods, RIDL and JSON",
		Run: func(x *engine.X, w *engine.W) {
			sets := [][]Ann{nil, {{Name: "a"}}, {{Name: "a", Val: lp(W("v"))}, {Name: "b"}}, {{Name: "a"}, {Name: "b", Val: lp(Q("stream (x)")), NL: true}}, {{Name: "errors"}, {Name: "stream", Val: lp(W("stream"))}}}
			m, o := p25Menu(x.Choose(14), "Ma"), p25Menu(x.Choose(14), "Mb")
			m.Ann, o.Ann = sets[x.Choose(len(sets))], sets[x.Choose(len(sets))]
			runBoth(w, func() *Doc { return NewDoc(append(p25Types(), &Svc{Name: "Sv", Methods: []Method{m, o}})...) })
		},
	}
}

func p26Layout(w *engine.W) *engine.Family {
	b := engine.Pick(w, 2, 4)
	d := NewDoc(&Svc{Name: "Sv", Methods: []Method{{Name: "Ma", Ann: []Ann{{Name: "a"}, {Name: "b", Val: lp(W("v"))}, {Name: "c", Val: lp(Q("q r")), NL: true}, {Name: "d"}}}, {Name: "Mb"}, {Name: "Mc", Ann: []Ann{{Name: "a", Val: lp(W("w"))}}}}})
	return &engine.Family{
		Name: "layout", Budget: b, Bound: fmt.Sprintf("every combination of alternatives at up to %d places of a document with annotated methods", b),
		Run: func(x *engine.X, w *engine.W) {
			text := d.Layout(func(_ byte, n int) int { return x.Dev(n) })
			if w.Mine(func() string { return text }) {
				same(w, d, text)
			}
		},
	}
}

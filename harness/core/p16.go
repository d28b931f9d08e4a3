package main

import (
	"fmt"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P16",
		Rule: "An execution parses one document with enums, in RIDL or JSON, and compares acceptance and every member's value with the reference; a state is a distinct expected schema or rejection.",
		Assumptions: []string{
			"whether an explicit value of an integer enum is a number, fits its type or repeats another value is not checked by the language",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p16Members(w), p16Types(), p16Values(w), p16Sizes(w), p16Several(w), p16JSON(), p16Layout(w), p16Imports(w)}
		},
	})
}

var p16Names = []string{"A", "b", "C_3", "d4", "Zero", "one", "X6", "Seven", "I8"}

func p16Forms(str bool) []*Lit {
	if str {
		return []*Lit{nil, lp(W("A")), lp(Q("two words")), lp(W("0")), lp(Q("#x"))}
	}
	return []*Lit{nil, lp(W("0")), lp(W("1")), lp(W("7")), lp(Q("300"))}
}

// p16Members: every sequence of implicit and explicit members.
func p16Members(w *engine.W) *engine.Family {
	n := engine.Pick(w, 4, 6)
	types := []string{"uint8", "string", "int"}
	return &engine.Family{
		Name: "members", Bound: fmt.Sprintf("all sequences of 0..%d members, each implicit or with one of 4 values, over 3 types, RIDL and JSON", n),
		Run: func(x *engine.X, w *engine.W) {
			t := types[x.Choose(3)]
			k := x.Choose(n + 1)
			forms := p16Forms(t == "string")
			var ms []Member
			for i := 0; i < k; i++ {
				ms = append(ms, Member{Name: p16Names[i], Val: forms[x.Choose(len(forms))]})
			}
			runBoth(w, func() *Doc { return NewDoc(&Enum{Name: "En", T: t, Mem: ms}) })
		},
	}
}

// p16Types: every type, valid and not.
func p16Types() *engine.Family {
	ts := append(append([]string{}, coreTypes...), "St", "Al", "Other", "Ai", "En", "Nope", "Int", "STRING", "String", "uint128", "int1", "i", "map", "strin", "uint8x")
	return &engine.Family{
		Name: "types", Bound: fmt.Sprintf("%d types of every kind, with every pair of forms of members, the types declared before or after, RIDL and JSON", len(ts)),
		Run: func(x *engine.X, w *engine.W) {
			t := ts[x.Choose(len(ts))]
			forms := []*Lit{nil, lp(W("5")), lp(Q("q"))}
			k := x.Choose(3)
			var ms []Member
			for i := 0; i < k; i++ {
				ms = append(ms, Member{Name: p16Names[i], Val: forms[x.Choose(3)]})
			}
			after := x.Bool()
			runBoth(w, func() *Doc {
				lib := []any{&Struct{Name: "St"}, &Alias{Name: "Al", T: N("string")}, &Alias{Name: "Ai", T: N("int8")}, &Enum{Name: "Other", T: "int", Mem: []Member{{Name: "O"}}}}
				e := &Enum{Name: "En", T: t, Mem: ms}
				if after {
					return NewDoc(e).Add(lib...)
				}
				return NewDoc(lib...).Add(e)
			})
		},
	}
}

// p16Values: explicit values of all sorts are kept exactly.
func p16Values(w *engine.W) *engine.Family {
	ws := append(words([]string{"0", "9", "a", "_", ".", "-", "/"}, 1, engine.Pick(w, 4, 5)), append(wordValues[:len(wordValues):len(wordValues)], markValues...)...)
	types := []string{"string", "uint64", "int8"}
	return &engine.Family{
		Name: "values", Bound: fmt.Sprintf("%d values, bare where possible and quoted, on the first or last of three members, 3 types, RIDL and JSON", len(ws)),
		Run: func(x *engine.X, w *engine.W) {
			v := ws[x.Choose(len(ws))]
			t := types[x.Choose(3)]
			at := 2 * x.Choose(2)
			q := x.Bool()
			runBoth(w, func() *Doc {
				ms := []Member{{Name: "A"}, {Name: "B"}, {Name: "C"}}
				ms[at].Val = &Lit{v, q}
				return NewDoc(&Enum{Name: "En", T: t, Mem: ms})
			})
		},
	}
}

func p16Sizes(w *engine.W) *engine.Family {
	n := engine.Pick(w, 100, 400)
	big := []int{127, 128, 129, 255, 256, 257, 258, 300, 513, 1025}
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("0..%d and up to 1025 members, none, one or every third explicit, 3 types, RIDL and JSON", n),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(n + 1 + len(big))
			if k > n {
				k = big[k-n-1]
			}
			at := x.Choose(3)
			t := []string{"uint8", "string", "int64"}[x.Choose(3)]
			runBoth(w, func() *Doc {
				e := &Enum{Name: "En", T: t}
				for i := 0; i < k; i++ {
					m := Member{Name: fmt.Sprintf("M%d", i)}
					if at == 1 && i == k/2 || at == 2 && i%3 == 1 {
						m.Val = lp(W(fmt.Sprint(1000 + i)))
					}
					e.Mem = append(e.Mem, m)
				}
				return NewDoc(e)
			})
		},
	}
}

// p16Several: values of one enum are independent of the others.
func p16Several(w *engine.W) *engine.Family {
	n := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "several", Bound: fmt.Sprintf("sequences of %d enums of 0..3 members with every pattern of explicit values, two types, other definitions between, RIDL and JSON", n),
		Run: func(x *engine.X, w *engine.W) {
			type e struct{ k, mask, t int }
			var es []e
			for i := 0; i < n; i++ {
				k := x.Choose(engine.Pick(w, 3, 4))
				es = append(es, e{k, x.Choose(1 << k), x.Choose(2)})
			}
			between := x.Bool()
			runBoth(w, func() *Doc {
				d := NewDoc()
				for i, v := range es {
					en := &Enum{Name: fmt.Sprintf("E%d", i), T: []string{"uint32", "string"}[v.t]}
					for j := 0; j < v.k; j++ {
						m := Member{Name: p16Names[j]}
						if v.mask>>j&1 == 1 {
							m.Val = lp(W(fmt.Sprint(5 + i)))
						}
						en.Mem = append(en.Mem, m)
					}
					d.Add(en)
					if between {
						d.Add(&Struct{Name: fmt.Sprintf("S%d", i), Fields: []Field{{Name: "A", T: N(en.Name)}}})
					}
				}
				return d
			})
		},
	}
}

// p16JSON: what only JSON can say about members.
func p16JSON() *engine.Family {
	vals := []string{`"value":"5"`, `"value":""`, `"value":null`, `"value":5`, `"value":true`, ``, `"value":[]`, `"value":" "`}
	typs := []string{``, `"type":"string"`, `"type":"int"`, `"type":""`, `"type":null`, `"type":"Nope"`, `"type":5`}
	kinds := []string{`"string"`, `"uint8"`, `"bool"`, `null`, ``, `""`, `"[]string"`, `"map<string,int>"`, `"enum"`, `5`}
	return &engine.Family{
		Name: "json-members", Bound: fmt.Sprintf("%d values, %d types of a member at 3 places, %d types of the enum, in JSON", len(vals), len(typs), len(kinds)),
		Run: func(x *engine.X, w *engine.W) {
			v, t, k := vals[x.Choose(len(vals))], typs[x.Choose(len(typs))], kinds[x.Choose(len(kinds))]
			at := x.Choose(3)
			ms := ""
			for i := 0; i < 3; i++ {
				if i > 0 {
					ms += ","
				}
				m := fmt.Sprintf(`{"name":"M%d"`, i)
				if i == at {
					if v != "" {
						m += "," + v
					}
					if t != "" {
						m += "," + t
					}
				} else {
					m += `,"value":"v"`
				}
				ms += m + "}"
			}
			if k != "" {
				k = `"type":` + k + ","
			}
			text := `{"webrpc":"v1","types":[{"kind":"enum","name":"En",` + k + `"fields":[` + ms + `]}]}`
			if !w.Mine(func() string { return text }) {
				return
			}
			s, err := parseJSON(text)
			w.Step(1)
			w.State(v + t + k)
			if v == `"value":" "` {
				return // blank values are not judged
			}
			ok := v == `"value":"5"` && (t == "" || t == `"type":null`) && (k == `"type":"string",` || k == `"type":"uint8",`)
			if ok != (err == nil) {
				w.Fail("accepted", "error is %v", err)
				return
			}
			if ok {
				if got := s.Types[0].Fields[at].Value; got != "5" {
					w.Fail("differs", "value %q", got)
				}
			}
		},
	}
}

// p16Layout: members in every layout of few deviations.
func p16Layout(w *engine.W) *engine.Family {
	return &engine.Family{
		Name: "layout", Budget: engine.Pick(w, 2, 3), Bound: "an integer and a string enum with implicit and explicit members in all layouts of up to 2 (thorough 3) deviations",
		Run: func(x *engine.X, w *engine.W) {
			d := NewDoc(
				&Enum{Name: "Ea", T: "uint8", Mem: []Member{{Name: "A"}, {Name: "B", Val: lp(W("9"))}, {Name: "C", Cm: Cm{Trail: str("= 5")}}}},
				&Enum{Name: "Eb", T: "string", Mem: []Member{{Name: "A", Val: lp(Q("x"))}, {Name: "B", Cm: Cm{Doc: []string{"- C = 3"}}}, {Name: "C"}}})
			text := d.Layout(func(_ byte, n int) int { return x.Dev(n) })
			if w.Mine(func() string { return text }) {
				same(w, d, text)
			}
		},
	}
}

// p16Imports: enums from imports keep their values.
func p16Imports(w *engine.W) *engine.Family {
	return &engine.Family{
		Name: "imports", Bound: "an enum of every pattern of 3 members in a file reached once or twice, used as field and map key",
		Run: func(x *engine.X, w *engine.W) {
			mask, t := x.Choose(8), x.Choose(2)
			shape := x.Choose(3)
			runFiles(w, func() (Files, string) {
				en := &Enum{Name: "En", T: []string{"int16", "string"}[t]}
				for j := 0; j < 3; j++ {
					m := Member{Name: p16Names[j]}
					if mask>>j&1 == 1 {
						m.Val = lp(W("70"))
					}
					en.Mem = append(en.Mem, m)
				}
				use := &Struct{Name: "Use", Fields: []Field{{Name: "a", T: N("En")}, {Name: "m", T: M("En", L(N("En")))}}}
				own := &Enum{Name: "Own", T: "int", Mem: []Member{{Name: "X"}, {Name: "Y"}}}
				f := Files{"c.ridl": NewDoc(en)}
				switch shape {
				case 0:
					f["a.ridl"] = NewDoc(&Imp{Path: W("c.ridl")}, own, use)
				case 1:
					f["a.ridl"] = NewDoc(&Imp{Path: W("b.ridl")}, &Imp{Path: W("c.ridl")}, own)
					f["b.ridl"] = NewDoc(&Imp{Path: W("c.ridl"), Members: []string{"En"}}, use)
				case 2:
					f["a.ridl"] = NewDoc(own, &Imp{Path: W("b.ridl"), Members: []string{"En"}}, use)
					f["b.ridl"] = NewDoc(&Imp{Path: W("c.ridl")}, &Enum{Name: "Mid", T: "string", Mem: []Member{{Name: "Q"}}})
				}
				return f, "a.ridl"
			})
		},
	}
}

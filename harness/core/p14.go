package main

import (
	"fmt"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P14",
		Rule: "An execution parses one document (or set of files) whose methods have error clauses, in RIDL or JSON, and compares acceptance and the whole schema with the reference; a state is a distinct expected schema or rejection.",
		Assumptions: []string{
			"naming an error twice in one clause is accepted and kept as written",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p14One(w), p14Three(w), p14Forms(w), p14Decl(), p14Words(w), p14Sizes(w), p14Imports(), p14Far(w), p14JSON()}
		},
	})
}

func p14Errs() []any {
	return []any{
		&Err{Code: "1", Name: "Aa", Msg: Q("m")},
		&Err{Code: "2", Name: "Ab", Msg: Q("m"), HTTP: "404"},
		&Err{Code: "3", Name: "Aaa", Msg: W("word")},
		&Err{Code: "4", Name: "B", Msg: Q("m")},
	}
}

func pickNames(x *engine.X, names []string, max int) (out []string) {
	for n := x.Choose(max + 1); n > 0; n-- {
		out = append(out, names[x.Choose(len(names))])
	}
	return
}

func p14One(w *engine.W) *engine.Family {
	names := []string{"Aa", "Ab", "Aaa", "B", "aa", "AA", "Nope", "A"}
	n := engine.Pick(w, 4, 5)
	return &engine.Family{
		Name: "one", Bound: fmt.Sprintf("all lists of 0..%d names out of %d declared, undeclared and differently cased, RIDL and JSON", n, len(names)),
		Run: func(x *engine.X, w *engine.W) {
			l := pickNames(x, names, n)
			runBoth(w, func() *Doc {
				return NewDoc(p14Errs()...).Add(&Svc{Name: "V", Methods: []Method{{Name: "M", Errs: l}}})
			})
		},
	}
}

// p14Three: three methods, in one service or two.
func p14Three(w *engine.W) *engine.Family {
	names := []string{"Aa", "B", "Nope"}
	max := engine.Pick(w, 2, 3)
	return &engine.Family{
		Name: "methods", Bound: fmt.Sprintf("three methods with all lists of 0..%d names out of %d, in one service or two, RIDL and JSON", max, len(names)),
		Run: func(x *engine.X, w *engine.W) {
			var ms []Method
			for i := 0; i < 3; i++ {
				ms = append(ms, Method{Name: fmt.Sprintf("M%d", i), HasOut: i == 1, Errs: pickNames(x, names, max)})
			}
			split := x.Choose(3)
			runBoth(w, func() *Doc {
				d := NewDoc(p14Errs()...)
				if split > 0 {
					d.Add(&Svc{Name: "A", Methods: ms[:split]})
				}
				return d.Add(&Svc{Name: "V", Methods: ms[split:]})
			})
		},
	}
}

// p14Forms: every form of method before the clause and after it.
func p14Forms(w *engine.W) *engine.Family {
	forms := []Method{
		{},
		{HasOut: true},
		{HasOut: true, SOut: true},
		{SIn: true, In: []Arg{{Name: "errors", T: N("string")}}},
		{In: []Arg{{Name: "a", T: M("string", L(N("S")))}}, HasOut: true, Out: []Arg{{Name: "b", T: N("S"), Opt: true}}},
		{HasOut: true, SOut: true, Out: []Arg{{Name: "b", T: L(N("S"))}, {Name: "c", T: N("int")}}},
		{Succ: "S", HasOut: true, SuccOut: "S"},
		{Succ: "S", HasOut: true, SuccOut: "S", SIn: true, SOut: true},
		{In: []Arg{{Name: "a", T: N("int")}}, Ann: []Ann{{Name: "x", Val: lp(W("Aa"))}, {Name: "errors", NL: true}}, Cm: Cm{Doc: []string{"errors B"}, Trail: str("| B")}},
	}
	lists := [][]string{nil, {"Aa"}, {"B", "Ab"}, {"Ab", "Aaa", "Aa"}, {"Nope", "Aa"}, {"Aa", "Nope"}}
	return &engine.Family{
		Name: "forms", Bound: fmt.Sprintf("all pairs of %d forms of methods with %d clauses each, errors declared before or after, RIDL and JSON", len(forms), len(lists)),
		Run: func(x *engine.X, w *engine.W) {
			var ms []Method
			for i := 0; i < 2; i++ {
				m := forms[x.Choose(len(forms))]
				m.Name = fmt.Sprintf("M%d", i)
				m.Errs = lists[x.Choose(len(lists))]
				ms = append(ms, m)
			}
			after := x.Bool()
			runBoth(w, func() *Doc {
				d := NewDoc(&Struct{Name: "S"})
				if !after {
					d.Add(p14Errs()...)
				}
				d.Add(&Svc{Name: "V", Methods: ms})
				if after {
					d.Add(p14Errs()...)
				}
				return d
			})
		},
	}
}

// p14Decl: every subset of errors declared, every subset named.
func p14Decl() *engine.Family {
	return &engine.Family{
		Name: "declared", Bound: "every subset of 4 errors declared with every subset named by each of two methods, RIDL and JSON",
		Run: func(x *engine.X, w *engine.W) {
			mask, a, b := x.Choose(16), x.Choose(16), x.Choose(16)
			runBoth(w, func() *Doc {
				d := NewDoc()
				names := []string{}
				for i, e := range p14Errs() {
					names = append(names, e.(*Err).Name)
					if mask>>i&1 == 1 {
						d.Add(e)
					}
				}
				return d.Add(&Svc{Name: "V", Methods: []Method{{Name: "M", Errs: members(a, names)}, {Name: "N", Errs: members(b, names)}}})
			})
		},
	}
}

// p14Words: short names on both sides.
func p14Words(w *engine.W) *engine.Family {
	ws := words([]string{"A", "a", "1", "_"}, 1, 3)
	var up []string
	for _, s := range ws {
		if s[0] == 'A' {
			up = append(up, s)
		}
	}
	return &engine.Family{
		Name: "names", Bound: fmt.Sprintf("an error of each of %d short names and a clause naming each of %d", len(up), len(ws)),
		Run: func(x *engine.X, w *engine.W) {
			e, n := up[x.Choose(len(up))], ws[x.Choose(len(ws))]
			runBoth(w, func() *Doc {
				return NewDoc(&Err{Code: "5", Name: e, Msg: Q("m")}, &Svc{Name: "V", Methods: []Method{{Name: "M", Errs: []string{n}}}})
			})
		},
	}
}

func p14Sizes(w *engine.W) *engine.Family {
	n := engine.Pick(w, 40, 200)
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("clauses of 1..%d names, all declared or one missing at any place, RIDL and JSON", n),
		Run: func(x *engine.X, w *engine.W) {
			k := 1 + x.Choose(n)
			miss := x.Choose(k+1) - 1
			runBoth(w, func() *Doc {
				d := NewDoc()
				v := &Svc{Name: "V", Methods: []Method{{Name: "M"}, {Name: "N"}}}
				for i := 0; i < k; i++ {
					if i != miss {
						d.Add(&Err{Code: fmt.Sprint(i + 1), Name: fmt.Sprintf("E%d", i), Msg: Q("m")})
					}
					v.Methods[0].Errs = append(v.Methods[0].Errs, fmt.Sprintf("E%d", (k-1-i)))
				}
				return d.Add(v)
			})
		},
	}
}

// p14Imports: where the error is declared against where it is named.
func p14Imports() *engine.Family {
	lists := [][]string{nil, {"Far"}, {"Near"}, {"Far", "Near"}, {"S"}, {"far"}, {"Vc"}, {"Vb", "Near"}}
	names := []string{"Own", "Near", "Far", "far", "Nope"}
	return &engine.Family{
		Name: "imports", Bound: fmt.Sprintf("a chain and a fan of three files with an error each, %d member lists on both imports, every error named by a method of the root or of the import", len(lists)),
		Run: func(x *engine.X, w *engine.W) {
			l1, l2 := lists[x.Choose(len(lists))], lists[x.Choose(len(lists))]
			n := names[x.Choose(len(names))]
			where, fan := x.Choose(3), x.Bool()
			runFiles(w, func() (Files, string) {
				own, near, far := &Err{Code: "1", Name: "Own", Msg: Q("m")}, &Err{Code: "2", Name: "Near", Msg: Q("m")}, &Err{Code: "3", Name: "Far", Msg: Q("m")}
				a, b, c := NewDoc(own), NewDoc(near), NewDoc(far, &Struct{Name: "S"})
				a.Add(&Imp{Path: W("b.ridl"), Members: l1})
				if fan {
					a.Add(&Imp{Path: W("c.ridl"), Members: l2})
				} else {
					b.Add(&Imp{Path: W("c.ridl"), Members: l2})
				}
				[]*Doc{a, b, c}[where].Add(&Svc{Name: []string{"Va", "Vb", "Vc"}[where], Methods: []Method{{Name: "M", Errs: []string{n}}, {Name: "N"}}})
				return Files{"a.ridl": a, "b.ridl": b, "c.ridl": c}, "a.ridl"
			})
		},
	}
}

// p14Far: one clause at any of many methods of many services.
func p14Far(w *engine.W) *engine.Family {
	n := engine.Pick(w, 8, 16)
	return &engine.Family{
		Name: "far", Bound: fmt.Sprintf("one or two clauses, valid or not, at any method of a grid of %d services by %d methods, RIDL and JSON", n, n),
		Run: func(x *engine.X, w *engine.W) {
			at, also := x.Choose(n*n), x.Choose(n)
			bad := x.Bool()
			runBoth(w, func() *Doc {
				d := NewDoc(p14Errs()...)
				for i := 0; i < n; i++ {
					v := &Svc{Name: fmt.Sprintf("V%d", i)}
					for j := 0; j < n; j++ {
						m := Method{Name: fmt.Sprintf("M%d", j)}
						if i*n+j == at {
							m.Errs = []string{"B", "Aa"}
							if bad {
								m.Errs = []string{"B", "Bb"}
							}
						} else if j == also && i == also {
							m.Errs = []string{"Aaa"}
						}
						v.Methods = append(v.Methods, m)
					}
					d.Add(v)
				}
				return d
			})
		},
	}
}

// p14JSON: forms only JSON has.
func p14JSON() *engine.Family {
	vals := []struct {
		v  string
		ok bool
	}{
		{`[]`, true}, {`["Aa"]`, true}, {`["Aa","B"]`, true}, {`["aa"]`, false}, {`[""]`, false}, {`["Aa",""]`, false}, {`[" Aa"]`, false}, {`["Aa "]`, false},
		{`["Aa|B"]`, false}, {`["1"]`, false}, {`[1]`, false}, {`"Aa"`, false}, {`{"Aa":1}`, false}, {`[["Aa"]]`, false}, {`true`, false}, {`["Ａa"]`, false}, {`["A\u0061"]`, true}, {`["Aа"]`, false},
	}
	return &engine.Family{
		Name: "json-values", Bound: fmt.Sprintf("%d JSON values of a method's errors", len(vals)),
		Run: func(x *engine.X, w *engine.W) {
			v := vals[x.Choose(len(vals))]
			text := `{"webrpc":"v1","name":"x","version":"v1","types":[],"errors":[{"code":1,"name":"Aa","message":"m","httpStatus":400},{"code":2,"name":"B","message":"m","httpStatus":400}],"services":[{"name":"V","methods":[{"name":"M","inputs":[],"outputs":[],"errors":` + v.v + `}]}]}`
			if !w.Mine(func() string { return text }) {
				return
			}
			_, err := parseJSON(text)
			w.Step(1)
			w.State(v.v)
			if (err == nil) != v.ok {
				w.Fail("accepted", "errors %s: error is %v", v.v, err)
			}
		},
	}
}

package main

import (
	"fmt"
	"strings"

	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P12",
		Rule: "An execution analyses one freshly parsed schema and compares the whole report, in both naming modes, the yes/no query and the schema afterwards with the reference; a state is a distinct report.",
		Assumptions: []string{
			"'bigint' is the core type; user types spelt like it in other letter case are not judged",
			"names of methods are distinct over services, and none is such that its request or response has the name of a struct, since the report is keyed by name alone",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p12Graphs(w), p12Four(w), p12Kinds(w), p12Methods(w), p12Sizes(w), p12Order(w), p12Nil()}
		},
	})
}

// bigints is the reference report.
func (d *Doc) bigints(compat bool) []string {
	structs := map[string]*Struct{}
	for _, it := range d.Items {
		if s, ok := it.(*Struct); ok {
			structs[s.Name] = s
		}
	}
	// least fixpoint of "has a big integer"
	has := map[string]bool{}
	for again := true; again; {
		again = false
		for n, s := range structs {
			if has[n] {
				continue
			}
			for _, f := range s.Fields {
				t := f.T
				if t.IsList() {
					t = t.Elem
				}
				if t.IsName() && (t.Name == "bigint" || structs[t.Name] != nil && has[t.Name]) {
					has[n], again = true, true
				}
			}
		}
	}
	entry := func(name string, t *TE) string {
		suffix := ""
		if t.IsList() {
			t, suffix = t.Elem, "[]"
		}
		switch {
		case !t.IsName():
		case t.Name == "bigint":
			return fmt.Sprintf("%q", name+suffix)
		case has[t.Name]:
			return fmt.Sprintf("(%q %q)", name, t.Name+suffix)
		}
		return ""
	}
	out := map[string][]string{}
	for n, s := range structs {
		for _, f := range s.Fields {
			if e := entry(f.Name, f.T); e != "" {
				out[n] = append(out[n], e)
			}
		}
	}
	for _, it := range d.Items {
		v, ok := it.(*Svc)
		if !ok {
			continue
		}
		for _, m := range v.Methods {
			if m.Succ != "" {
				continue
			}
			req, resp := "Request", "Response"
			if compat {
				req, resp = "Args", "Return"
			}
			for _, a := range m.In {
				if e := entry(a.Name, a.T); e != "" {
					out[m.Name+req] = append(out[m.Name+req], e)
				}
			}
			for _, a := range m.Out {
				if e := entry(a.Name, a.T); e != "" {
					out[m.Name+resp] = append(out[m.Name+resp], e)
				}
			}
		}
	}
	var lines []string
	for _, k := range sortedKeys(out) {
		lines = append(lines, k+": "+strings.Join(out[k], " "))
	}
	return lines
}

func realBigints(m map[string][]any) []string {
	var lines []string
	for _, k := range sortedKeys(m) {
		l := k + ":"
		for _, e := range m[k] {
			switch v := e.(type) {
			case string:
				l += fmt.Sprintf(" %q", v)
			case [2]string:
				l += fmt.Sprintf(" (%q %q)", v[0], v[1])
			default:
				l += fmt.Sprintf(" !%T", e)
			}
		}
		lines = append(lines, l)
	}
	return lines
}

func bigints(w *engine.W, d *Doc, json bool) {
	d = around(d)
	s, want := fresh(w, d, json)
	if s == nil {
		return
	}
	for _, mode := range []int{0, 1, 2} { // default, compat off, compat on
		var got map[string][]any
		switch mode {
		case 0:
			got = schema.SchemaBigIntFieldsByType(s)
		case 1:
			got = schema.SchemaBigIntFieldsByType(s, false)
		case 2:
			got = schema.SchemaBigIntFieldsByType(s, true)
		}
		exp := d.bigints(mode == 2)
		w.Step(1)
		g, e := strings.Join(realBigints(got), "\n"), strings.Join(exp, "\n")
		w.State(e)
		if g != e {
			w.Fail("differs", "mode %d: the reported fields differ:\n expected: %s\n      got: %s", mode, e, g)
			return
		}
		if yes := schema.SchemaUsesBigInts(s); yes != (len(exp) > 0) {
			w.Fail("query", "SchemaUsesBigInts is %v with %d types reported", yes, len(exp))
			return
		}
	}
	if got := Real(s).String(); got != want.String() {
		w.Fail("modified", "the analysis changed the schema:\n%s", diff(want.String(), got))
	}
}

// p12Graphs: all graphs on three structs.
func p12Graphs(w *engine.W) *engine.Family {
	return &engine.Family{
		Name: "graphs", Bound: "all graphs on 3 structs with no, direct or list references between any two, every subset of them with a bigint (direct or list)",
		Run: func(x *engine.X, w *engine.W) {
			var edges [9]int
			for i := range edges {
				edges[i] = x.Choose(3)
			}
			big := x.Choose(8)
			build := func() *Doc {
				d := NewDoc()
				for i := 0; i < 3; i++ {
					s := &Struct{Name: fmt.Sprintf("S%d", i)}
					for j := 0; j < 3; j++ {
						if k := edges[3*i+j]; k > 0 {
							s.Fields = append(s.Fields, Field{Name: fmt.Sprintf("f%d", j), T: edge(k-1, fmt.Sprintf("S%d", j)), Opt: k == 2 && j == 0})
						}
					}
					if big>>i&1 == 1 {
						t := N("bigint")
						if (i+edges[0])%2 == 1 {
							t = L(t)
						}
						s.Fields = append(s.Fields, Field{Name: "b", T: t})
					} else {
						s.Fields = append(s.Fields, Field{Name: "n", T: N("int64")})
					}
					d.Add(s)
				}
				return d
			}
			if w.Mine(func() string { return build().RIDL() }) {
				bigints(w, build(), true)
			}
		},
	}
}

func p12Four(w *engine.W) *engine.Family {
	return &engine.Family{
		Name: "graphs-4", Bound: "all graphs on 4 structs with direct references" + engine.Pick(w, "", " or list references") + ", one of them with a bigint, the bigint before or after the references",
		Run: func(x *engine.X, w *engine.W) {
			mask := x.Choose(1 << 16)
			kind := x.Choose(engine.Pick(w, 1, 2))
			big := x.Choose(engine.Pick(w, 2, 8))
			if !w.Thorough() {
				big *= 4 // the bigint is in the first struct; graphs cover the rest
			}
			build := func() *Doc {
				d := NewDoc()
				for i := 0; i < 4; i++ {
					s := &Struct{Name: fmt.Sprintf("S%d", i)}
					if big == i {
						s.Fields = append(s.Fields, Field{Name: "b", T: N("bigint")})
					}
					for j := 0; j < 4; j++ {
						if mask>>(4*i+j)&1 == 1 {
							s.Fields = append(s.Fields, Field{Name: fmt.Sprintf("f%d", j), T: edge(kind, fmt.Sprintf("S%d", j))})
						}
					}
					if big == 4+i {
						s.Fields = append(s.Fields, Field{Name: "b", T: N("bigint")})
					}
					d.Add(s)
				}
				return d
			}
			if w.Mine(func() string { return build().RIDL() }) {
				bigints(w, build(), true)
			}
		},
	}
}

// p12Types are declared types with and without big integers.
func p12Types() []any {
	return []any{
		&Struct{Name: "Plain", Fields: []Field{{Name: "a", T: N("uint64")}, {Name: "bigint", T: N("string")}}},
		&Struct{Name: "Big", Fields: []Field{{Name: "v", T: N("bigint")}}},
		&Struct{Name: "Bigs", Fields: []Field{{Name: "v", T: L(N("bigint"))}, {Name: "w", T: N("int")}}},
		&Struct{Name: "Nest", Fields: []Field{{Name: "p", T: N("Plain")}, {Name: "n", T: L(N("Big")), Opt: true}}},
		&Struct{Name: "MapBig", Fields: []Field{{Name: "m", T: M("string", N("bigint"))}, {Name: "l", T: L(L(N("bigint")))}}},
		&Struct{Name: "MapStruct", Fields: []Field{{Name: "m", T: M("string", N("Big"))}, {Name: "a", T: N("Number")}}},
		&Alias{Name: "Number", T: N("bigint")},
		&Alias{Name: "Numbers", T: L(N("bigint"))},
		&Alias{Name: "Boxed", T: N("Big")},
		&Enum{Name: "Kind", T: "int", Mem: []Member{{Name: "bigint"}}},
		&Struct{Name: "Empty"},
	}
}

func p12Exprs(w *engine.W) []*TE {
	names := []string{"bigint", "int64", "Plain", "Big", "Bigs", "Nest", "MapBig", "MapStruct", "Number", "Numbers", "Boxed", "Kind", "Empty"}
	return exprs(engine.Pick(w, 2, 3), names, []*TE{N("string"), N("Kind")})
}

// p12Kinds: every expression at every place.
func p12Kinds(w *engine.W) *engine.Family {
	es := p12Exprs(w)
	const places = 8
	return &engine.Family{
		Name: "kinds", Bound: fmt.Sprintf("%d type expressions at %d places (fields, inputs, outputs), RIDL and JSON", len(es), places),
		Run: func(x *engine.X, w *engine.W) {
			t := es[x.Choose(len(es))]
			place := x.Choose(places)
			build := func() *Doc {
				d := NewDoc()
				s := &Struct{Name: "Use"}
				m := &Method{Name: "Get", HasOut: true}
				v := &Svc{Name: "V", Methods: []Method{{Name: "Before", In: []Arg{{Name: "x", T: N("int")}}}}}
				switch place {
				case 0:
					s.Fields = []Field{{Name: "a", T: t}}
				case 1:
					s.Fields = []Field{{Name: "z", T: N("bigint"), Opt: true}, {Name: "b", T: t, Opt: true}, {Name: "c", T: t}}
				case 2:
					m.In = []Arg{{Name: "a", T: t}}
				case 3:
					m.In = []Arg{{Name: "b", T: N("Plain")}, {Name: "a", T: t, Opt: true}, {Name: "c", T: L(N("Nest"))}}
				case 4:
					m.Out = []Arg{{Name: "a", T: t}}
				case 5:
					m.Out, m.SOut = []Arg{{Name: "n", T: L(N("bigint"))}, {Name: "a", T: t}, {Name: "c", T: N("Bigs")}}, true
				case 6:
					m.In, m.Out = []Arg{{Name: "a", T: t}}, []Arg{{Name: "b", T: t}}
				case 7:
					s.Fields = []Field{{Name: "a", T: t, Meta: []Meta{{Key: "json", Val: W("other")}}}}
					m.Succ, m.SuccOut = "Use", "Use"
				}
				v.Methods = append(v.Methods, *m)
				if place%2 == 0 {
					return d.Add(s).Add(p12Types()...).Add(v)
				}
				return d.Add(p12Types()...).Add(s, v)
			}
			if w.Mine(func() string { return build().RIDL() }) {
				bigints(w, build(), place%3 == 0)
			}
		},
	}
}

// p12Methods: services of methods in every form.
func p12Methods(w *engine.W) *engine.Family {
	forms := []Method{
		{},
		{In: []Arg{{Name: "a", T: N("bigint")}}},
		{HasOut: true, Out: []Arg{{Name: "a", T: L(N("Big"))}, {Name: "b", T: N("string")}}},
		{In: []Arg{{Name: "a", T: N("Plain")}}, HasOut: true, Out: []Arg{{Name: "a", T: N("bigint"), Opt: true}, {Name: "b", T: N("bigint")}}},
		{Succ: "Big", HasOut: true, SuccOut: "Plain"},
		{Succ: "Plain", HasOut: true, SuccOut: "Nest", SIn: true},
		{SIn: true, In: []Arg{{Name: "a", T: L(N("bigint"))}}, HasOut: true, SOut: true, Out: []Arg{{Name: "a", T: N("Nest")}}, Ann: []Ann{{Name: "x"}}},
		{In: []Arg{{Name: "big", T: N("Big")}}, HasOut: true, Out: []Arg{{Name: "plain", T: N("Plain")}}},
	}
	n := engine.Pick(w, 4, 5)
	return &engine.Family{
		Name: "methods", Bound: fmt.Sprintf("all sequences of 1..%d methods out of %d forms, in one or two services", n, len(forms)),
		Run: func(x *engine.X, w *engine.W) {
			k := 1 + x.Choose(n)
			var ms []Method
			for i := 0; i < k; i++ {
				m := forms[x.Choose(len(forms))]
				m.Name = fmt.Sprintf("M%d", i)
				ms = append(ms, m)
			}
			split := 0
			if k > 1 {
				split = x.Choose(k)
			}
			with := x.Bool()
			build := func() *Doc {
				types := p12Types()
				if !with { // only the types in use carry big integers
					types = types[:4]
				}
				d := NewDoc(types...)
				if split > 0 {
					d.Add(&Svc{Name: "A", Methods: ms[:split]})
				}
				return d.Add(&Svc{Name: "B", Methods: ms[split:]})
			}
			if w.Mine(func() string { return build().RIDL() }) {
				bigints(w, build(), true)
			}
		},
	}
}

func p12Sizes(w *engine.W) *engine.Family {
	n := engine.Pick(w, 40, 150)
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("chains, rings and fans of 1..%d structs, fields and arguments, the bigint at every place", n),
		Run: func(x *engine.X, w *engine.W) {
			kind := x.Choose(6)
			k := 1 + x.Choose(n)
			at := x.Choose(k)
			build := func() *Doc {
				d := NewDoc()
				nm := func(i int) string { return fmt.Sprintf("S%d", i) }
				t := func(i int) *TE {
					if i == at {
						return N("bigint")
					}
					return N("int")
				}
				switch kind {
				case 0, 1, 2: // chain, ring, chain backwards
					for i := 0; i < k; i++ {
						s := &Struct{Name: nm(i), Fields: []Field{{Name: "v", T: t(i)}}}
						switch {
						case kind == 2 && i > 0:
							s.Fields = append([]Field{{Name: "next", T: edge(i%2, nm(i-1))}}, s.Fields...)
						case kind != 2 && (i+1 < k || kind == 1):
							s.Fields = append([]Field{{Name: "next", T: edge(i%2, nm((i+1)%k))}}, s.Fields...)
						}
						d.Add(s)
					}
				case 3: // fields
					s := &Struct{Name: "S"}
					for i := 0; i < k; i++ {
						s.Fields = append(s.Fields, Field{Name: fmt.Sprintf("f%d", i), T: t(i)})
					}
					d.Add(s)
				case 4, 5: // inputs, outputs
					m := Method{Name: "M", HasOut: kind == 5}
					for i := 0; i < k; i++ {
						a := Arg{Name: fmt.Sprintf("a%d", i), T: t(i)}
						if i%3 == 0 {
							a.T = L(a.T)
						}
						if kind == 4 {
							m.In = append(m.In, a)
						} else {
							m.Out = append(m.Out, a)
						}
					}
					d.Add(&Svc{Name: "V", Methods: []Method{m}})
				}
				return d
			}
			if w.Mine(func() string { return build().RIDL() }) {
				bigints(w, build(), true)
			}
		},
	}
}

// p12Order: every order of a set of definitions gives the same report.
func p12Order(w *engine.W) *engine.Family {
	items := func() []any {
		return []any{
			&Struct{Name: "A", Fields: []Field{{Name: "b", T: N("B")}, {Name: "c", T: L(N("C"))}}},
			&Struct{Name: "B", Fields: []Field{{Name: "a", T: N("A")}, {Name: "d", T: N("D")}}},
			&Struct{Name: "C", Fields: []Field{{Name: "b", T: L(N("B"))}, {Name: "c", T: N("C")}}},
			&Struct{Name: "D", Fields: []Field{{Name: "e", T: N("E")}, {Name: "c", T: N("C")}}},
			&Struct{Name: "E", Fields: []Field{{Name: "x", T: L(N("bigint"))}, {Name: "a", T: N("A")}}},
			&Struct{Name: "F", Fields: []Field{{Name: "g", T: N("G")}}},
			&Struct{Name: "G", Fields: []Field{{Name: "f", T: L(N("F"))}}},
		}
	}
	k := engine.Pick(w, 6, 7)
	return &engine.Family{
		Name: "order", Bound: fmt.Sprintf("every order of %d mutually recursive structs and, each, every order of the fields of the first three", k),
		Run: func(x *engine.X, w *engine.W) {
			all := items()
			if k < len(all) {
				all = all[:k]
				all[k-1] = &Struct{Name: "F", Fields: []Field{{Name: "f", T: L(N("F"))}}}
			}
			for i := 0; i < 3; i++ {
				if x.Bool() {
					f := all[i].(*Struct).Fields
					f[0], f[1] = f[1], f[0]
				}
			}
			d := NewDoc()
			for len(all) > 0 {
				i := x.Choose(len(all))
				d.Add(all[i])
				all = append(append([]any{}, all[:i]...), all[i+1:]...)
			}
			if w.Mine(func() string { return d.RIDL() }) {
				bigints(w, d, true)
			}
		},
	}
}

func p12Nil() *engine.Family {
	return &engine.Family{
		Name: "nil", Bound: "nil and empty schemas",
		Run: func(x *engine.X, w *engine.W) {
			kind := x.Choose(2)
			if !w.Mine(func() string { return []string{"nil", "empty"}[kind] }) {
				return
			}
			if kind == 0 {
				if schema.SchemaUsesBigInts(nil) {
					w.Fail("nil", "a nil schema uses big integers")
				}
				return
			}
			bigints(w, NewDoc(), true)
		},
	}
}

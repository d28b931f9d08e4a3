package main

import (
	"encoding/json"
	"fmt"
	"strings"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P25",
		Rule: "An execution parses one document with methods, in RIDL or JSON, and compares acceptance and every method's complete signature with the reference; a state is a distinct expected schema or rejection.",
		Assumptions: []string{
			"'stream' and 'proxy' are reserved as method names",
			"missing or extra separators between ordinary arguments are not in scope",
			"repeated argument names are not checked by the language",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p25Sides(w), p25Args(w), p25Methods(w), p25Succinct(w), p25Kinds(), p25JSON(w), p25Names(), p25Types2(), p25Counts(w), p25Layout(w)}
		},
	})
}

func p25Types() []any {
	return []any{
		&Struct{Name: "St", Fields: []Field{{Name: "x", T: N("int")}}},
		&Struct{Name: "Su"},
		&Alias{Name: "Al", T: N("St")},
		&Alias{Name: "Am", T: N("string")},
		&Enum{Name: "En", T: "int", Mem: []Member{{Name: "A"}}},
		&Err{Code: "1", Name: "Ea", Msg: Q("a")},
	}
}

// p25Sides: every list of ordinary, succinct and malformed arguments on either
// side of a method.
func p25Sides(w *engine.W) *engine.Family {
	type side struct {
		text string
		ok   bool
		succ string
		args []Arg
	}
	elems := []struct {
		text string
		arg  *Arg
		succ bool
	}{
		{"a: int", &Arg{Name: "a", T: N("int")}, false},
		{"b?: St", &Arg{Name: "b", T: N("St"), Opt: true}, false},
		{"c: []map<string,En>", &Arg{Name: "c", T: L(M("string", N("En")))}, false},
		{"St", nil, true},
		{"Su", nil, true},
		{"Al", nil, false},
		{"En", nil, false},
		{"No", nil, false},
		{"int", nil, false},
		{"[]St", nil, false},
		{"St?", nil, false},
		{"a:", nil, false},
		{": int", nil, false},
		{"a: No", nil, false},
		{"stream St", nil, false},
		{"stream a: int", nil, false},
	}
	var sides []side
	max := engine.Pick(w, 2, 2)
	var rec func(text string, args []Arg, succ string, ok bool, n int)
	rec = func(text string, args []Arg, succ string, ok bool, n int) {
		sides = append(sides, side{"(" + text + ")", ok, succ, args})
		if n == max {
			return
		}
		for _, e := range elems {
			t := e.text
			if n > 0 {
				t = text + ", " + t
			}
			if e.succ {
				rec(t, nil, e.text, ok && n == 0, n+1)
			} else if e.arg != nil {
				rec(t, append(args[:len(args):len(args)], *e.arg), succ, ok && succ == "", n+1)
			} else {
				rec(t, nil, "", false, n+1)
			}
		}
	}
	rec("", nil, "", true, 0)
	streams := engine.Pick(w, 1, 4)
	return &engine.Family{
		Name: "sides", Bound: fmt.Sprintf("every list of up to %d of %d ordinary, succinct and malformed arguments as input and as output, or no output, with %d forms of streaming", max, len(elems), streams+1),
		Run: func(x *engine.X, w *engine.W) {
			in := sides[x.Choose(len(sides))]
			o := x.Choose(len(sides) + 1)
			st := x.Choose(streams + 1)
			if st == streams {
				st = 3
			}
			m := Method{Name: "Me", In: in.args, Succ: in.succ, SIn: st&1 != 0}
			ok := in.ok
			text := "- "
			if m.SIn {
				text += "stream "
			}
			text += "Me" + in.text
			if o < len(sides) {
				out := sides[o]
				m.HasOut, m.SOut, m.Out, m.SuccOut = true, st&2 != 0, out.args, out.succ
				ok = ok && out.ok
				text += " => "
				if m.SOut {
					text += "stream "
				}
				text += out.text
			}
			build := func() (*Doc, string) {
				d := NewDoc(append(p25Types(), &Svc{Name: "Sv", Methods: []Method{{Name: "Before"}, {Name: "M0"}, {Name: "After", In: []Arg{{Name: "z", T: N("Su")}}}}})...)
				t := strings.Replace(d.RIDL(), "- M0()", text, 1)
				d.Items[len(d.Items)-1].(*Svc).Methods[1] = m
				return d, t
			}
			if w.Mine(func() string { return text }) {
				d, t := build()
				var want *Sch
				good := ok
				if ok {
					want, good = d.Expect()
				}
				expect(w, t, want, good)
			}
		},
	}
}

// p25Args: every sequence of arguments.
func p25Args(w *engine.W) *engine.Family {
	types := []*TE{N("int"), L(N("St")), M("En", N("Al"))}
	names := []string{"a", "b_2", "Cc"}
	n := engine.Pick(w, 2, 3)
	list := func(x *engine.X) (out []Arg) {
		for i, k := 0, x.Choose(n+1); i < k; i++ {
			a := Arg{Name: names[i], T: types[x.Choose(len(types))], Opt: x.Bool()}
			out = append(out, a)
		}
		return
	}
	return &engine.Family{
		Name: "arguments", Bound: fmt.Sprintf("all sequences of up to %d arguments of %d types, optional or not, for input and for output, all forms of streaming, RIDL and JSON", n, len(types)),
		Run: func(x *engine.X, w *engine.W) {
			m := Method{Name: "Me", In: list(x), SIn: x.Bool()}
			switch x.Choose(3) {
			case 1:
				m.HasOut, m.Out = true, list(x)
			case 2:
				m.HasOut, m.SOut, m.Out = true, true, list(x)
			}
			runBoth(w, func() *Doc { return NewDoc(append(p25Types(), &Svc{Name: "Sv", Methods: []Method{m}})...) })
		},
	}
}

func p25Menu(i int, name string) Method {
	m := []Method{
		{},
		{In: []Arg{{Name: "a", T: N("int")}}},
		{In: []Arg{{Name: "a", T: N("int"), Opt: true}, {Name: "b", T: N("St")}}, HasOut: true, Out: []Arg{{Name: "c", T: N("En"), Opt: true}}},
		{HasOut: true},
		{SIn: true, In: []Arg{{Name: "s", T: N("St")}}},
		{HasOut: true, SOut: true, Out: []Arg{{Name: "o", T: L(N("Su"))}}},
		{SIn: true, HasOut: true, SOut: true},
		{Succ: "St", HasOut: true, SuccOut: "Su"},
		{Succ: "Su", HasOut: true, SuccOut: "Su", SIn: true},
		{Succ: "Su", HasOut: true, SuccOut: "St", SOut: true},
		{Errs: []string{"Ea"}, Ann: []Ann{{Name: "x", Val: lp(W("y"))}}},
		{Succ: "St", HasOut: true, SuccOut: "St", Errs: []string{"Ea"}},
		{HasOut: true, SOut: true, Out: []Arg{{Name: "o", T: N("Am")}}, Errs: []string{"Ea"}, Cm: Cm{Doc: []string{"d"}}},
		{Proxy: true},
	}[i]
	m.Name = name
	return m
}

// p25Methods: the signature of one method doesn't depend on its neighbours.
func p25Methods(w *engine.W) *engine.Family {
	const menu = 14
	n := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "methods", Bound: fmt.Sprintf("all sequences of up to %d methods of %d signatures, in one service or one service each, RIDL and JSON", n, menu),
		Run: func(x *engine.X, w *engine.W) {
			var ms []Method
			for i, k := 0, 1+x.Choose(n); i < k; i++ {
				ms = append(ms, p25Menu(x.Choose(menu), fmt.Sprintf("Me%d", i)))
			}
			apart := x.Bool()
			runBoth(w, func() *Doc {
				d := NewDoc(p25Types()...)
				if !apart {
					return d.Add(&Svc{Name: "Sv", Methods: ms})
				}
				for i, m := range ms {
					m.Name = "Me"
					d.Add(&Svc{Name: fmt.Sprintf("Sv%d", i), Methods: []Method{m}})
				}
				return d
			})
		},
	}
}

// p25Succinct: the name of the one argument.
func p25Succinct(w *engine.W) *engine.Family {
	heads := []string{"A", "Z", "Q", "AB", "ABc", "Ab", "A1", "A_b", "AbC", "Request", "URL", "IDs"}
	tails := words([]string{"a", "B", "7", "_"}, 0, engine.Pick(w, 2, 4))
	return &engine.Family{
		Name: "succinct-names", Bound: fmt.Sprintf("%d struct names in succinct form on one side or both, declared before or after, RIDL and JSON", len(heads)*len(tails)),
		Run: func(x *engine.X, w *engine.W) {
			name := heads[x.Choose(len(heads))] + tails[x.Choose(len(tails))]
			k := x.Choose(3)
			after := x.Bool()
			runBoth(w, func() *Doc {
				m := Method{Name: "Me", Succ: name, SuccOut: name, HasOut: true}
				if k == 1 {
					m.Succ = "Other"
				} else if k == 2 {
					m.SuccOut = "Other"
				}
				def := &Struct{Name: name, Fields: []Field{{Name: "self", T: L(N(name)), Opt: true}}}
				oth := &Struct{Name: "Other"}
				svc := &Svc{Name: "Sv", Methods: []Method{m}}
				if after {
					return NewDoc(svc, oth, def)
				}
				return NewDoc(def, oth, svc)
			})
		},
	}
}

// p25Kinds: only structs, under their exact names, are accepted in succinct form.
func p25Kinds() *engine.Family {
	names := []string{"St", "Su", "ST", "st", "Al", "Am", "En", "Nope", "int", "string", "map", "any", "stream", "Sv", "Ea", "s", "St2", "S"}
	return &engine.Family{
		Name: "succinct-kinds", Bound: fmt.Sprintf("all pairs of %d names of structs, other types and other things, as input and output in succinct form", len(names)),
		Run: func(x *engine.X, w *engine.W) {
			in, out := names[x.Choose(len(names))], names[x.Choose(len(names))]
			run(w, NewDoc(append(p25Types(), &Svc{Name: "Sv", Methods: []Method{{Name: "Me", Succ: in, HasOut: true, SuccOut: out}}})...))
		},
	}
}

// p25JSON: methods marked succinct in JSON.
func p25JSON(w *engine.W) *engine.Family {
	types := []string{"St", "Su", "Al", "En", "int", "[]St", "map<string,St>", "No", ""}
	n := engine.Pick(w, 2, 3)
	list := func(x *engine.X, which string) (out []any, ok bool) {
		out = []any{}
		k := x.Choose(n + 1)
		ok = k == 1
		for i := 0; i < k; i++ {
			t := types[x.Choose(len(types))]
			ok = ok && (t == "St" || t == "Su")
			out = append(out, jm{"name": fmt.Sprintf("%s%d", which, i), "type": t, "optional": false})
		}
		return
	}
	return &engine.Family{
		Name: "json-succinct", Bound: fmt.Sprintf("all lists of up to %d arguments of %d types on either side of a method marked succinct in JSON, streaming or not, with or without errors", n, len(types)),
		Run: func(x *engine.X, w *engine.W) {
			in, a := list(x, "in")
			out, b := list(x, "out")
			st := x.Choose(4)
			errs := []any{}
			if x.Bool() {
				errs = append(errs, "Ea")
			}
			build := func() string {
				var root jm
				d := NewDoc(append(p25Types(), &Svc{Name: "Sv", Methods: []Method{{Name: "Me"}}})...)
				json.Unmarshal([]byte(d.JSON(false)), &root)
				m := root["services"].([]any)[0].(jm)["methods"].([]any)[0].(jm)
				m["inputs"], m["outputs"], m["succinct"] = in, out, true
				m["streamInput"], m["streamOutput"], m["errors"] = st&1 != 0, st&2 != 0, errs
				t, _ := json.Marshal(root)
				return string(t)
			}
			if !w.Mine(build) {
				return
			}
			w.Step(1)
			s, err := parseJSON(build())
			if !a || !b {
				w.State("rejected")
				if err == nil {
					w.Fail("accepted", "a succinct method without a single struct on each side was accepted")
				}
				return
			}
			if err != nil {
				w.Fail("rejected", "a valid succinct method was rejected: %v", err)
				return
			}
			m := Real(s).Svcs[0].Methods[0]
			got := fmt.Sprintf("%v %+v %+v %v %v %q", m.Succ, m.In, m.Out, m.SIn, m.SOut, m.Errs)
			ri := RArg{Name: "in0", T: "struct " + in[0].(jm)["type"].(string)}
			ro := RArg{Name: "out0", T: "struct " + out[0].(jm)["type"].(string)}
			at := map[string]string{"struct St": "#0", "struct Su": "#1"}
			ri.T += at[ri.T]
			ro.T += at[ro.T]
			want := fmt.Sprintf("%v %+v %+v %v %v %q", true, []RArg{ri}, []RArg{ro}, st&1 != 0, st&2 != 0, errs)
			w.State(want)
			if got != want {
				w.Fail("differs", "expected %s, got %s", want, got)
			}
		},
	}
}

// p25Types2: whether an argument is optional has nothing to do with its type.
func p25Types2() *engine.Family {
	var ts []*TE
	for _, c := range append(append([]string{}, coreTypes...), "St", "Al", "Am", "En") {
		ts = append(ts, N(c), L(N(c)), M("string", N(c)), M("En", L(N(c))))
	}
	return &engine.Family{
		Name: "types", Bound: fmt.Sprintf("%d types at each of up to 3 places among the inputs, the outputs or the fields of a struct, every combination of optional marks, RIDL and JSON", len(ts)),
		Run: func(x *engine.X, w *engine.W) {
			t := ts[x.Choose(len(ts))]
			n := 1 + x.Choose(3)
			at := x.Choose(n)
			side := x.Choose(3)
			opt := x.Choose(1 << n)
			runBoth(w, func() *Doc {
				var as []Arg
				var fs []Field
				for i := 0; i < n; i++ {
					a := Arg{Name: fmt.Sprintf("a%d", i), T: N("string"), Opt: opt>>i&1 == 1}
					if i == at {
						a.T = t
					}
					as = append(as, a)
					fs = append(fs, Field{Name: a.Name, T: a.T, Opt: a.Opt})
				}
				m := Method{Name: "Me", HasOut: true}
				switch side {
				case 0:
					m.In = as
				case 1:
					m.Out = as
				case 2:
					return NewDoc(append(p25Types(), &Struct{Name: "Sx", Fields: fs})...)
				}
				return NewDoc(append(p25Types(), &Svc{Name: "Sv", Methods: []Method{m}})...)
			})
		},
	}
}

// p25Names: words of the language as names of arguments and methods.
func p25Names() *engine.Family {
	kw := []string{"a", "A", "stream", "proxy", "errors", "error", "enum", "struct", "import", "map", "service", "type", "name", "version", "webrpc", "basepath", "HTTP", "int", "string", "St", "En", "streams", "Stream", "errorsx", "a1", "a_"}
	return &engine.Family{
		Name: "names", Bound: fmt.Sprintf("all pairs of %d words, of the language and others, as names of arguments (equal ones included) and of a method", len(kw)),
		Run: func(x *engine.X, w *engine.W) {
			a, b := kw[x.Choose(len(kw))], kw[x.Choose(len(kw))]
			m := kw[x.Choose(len(kw))]
			if m == "stream" || m == "proxy" {
				return
			}
			build := func() *Doc {
				return NewDoc(append(p25Types(), &Svc{Name: "Sv", Methods: []Method{
					{Name: m, In: []Arg{{Name: a, T: N("St")}, {Name: b, T: N("int"), Opt: true}}, HasOut: true, Out: []Arg{{Name: b, T: N("En")}}},
					{Name: "Next", SIn: true, In: []Arg{{Name: a, T: N("St")}}, HasOut: true, SOut: true, Out: []Arg{{Name: a, T: N("En")}}}}})...)
			}
			if m == "Next" {
				return
			}
			run(w, build())
		},
	}
}

func p25Counts(w *engine.W) *engine.Family {
	max := engine.Pick(w, 50, 300)
	return &engine.Family{
		Name: "counts", Bound: fmt.Sprintf("0..%d arguments on either side, 0..%d methods, RIDL and JSON", max, max),
		Run: func(x *engine.X, w *engine.W) {
			k, n := x.Choose(3), x.Choose(max+1)
			st := x.Bool()
			runBoth(w, func() *Doc {
				var as []Arg
				for i := 0; i < n; i++ {
					as = append(as, Arg{Name: fmt.Sprintf("a%d", i), T: N([]string{"int", "St", "En"}[i%3]), Opt: i%2 == 1})
				}
				m := Method{Name: "Me", SIn: st, HasOut: true, SOut: st}
				ms := []Method{m}
				switch k {
				case 0:
					ms[0].In = as
				case 1:
					ms[0].Out = as
				case 2:
					for i := 0; i < n; i++ {
						ms = append(ms, p25Menu(i%14, fmt.Sprintf("X%d", i)))
					}
				}
				return NewDoc(append(p25Types(), &Svc{Name: "Sv", Methods: ms})...)
			})
		},
	}
}

// p25Layout: the spacing of a signature.
func p25Layout(w *engine.W) *engine.Family {
	b := engine.Pick(w, 2, 4)
	return &engine.Family{
		Name: "layout", Budget: b, Bound: fmt.Sprintf("every combination of alternatives at up to %d places of the lines of each of 14 signatures", b),
		Run: func(x *engine.X, w *engine.W) {
			i := x.Choose(14)
			d := NewDoc(append(p25Types(), &Svc{Name: "Sv", Methods: []Method{p25Menu(i, "Me"), {Name: "Next"}}})...)
			var out strings.Builder
			on := false
			for _, l := range d.Lines() {
				on = on || l.kind == "service"
				if on && l.kind == "method" {
					l.write(&out, func(_ byte, n int) int { return x.Dev(n) })
				} else {
					l.write(&out, nil)
				}
				out.WriteString("\n")
			}
			if w.Mine(out.String) {
				want, ok := d.Expect()
				expect(w, out.String(), want, ok)
			}
		},
	}
}

package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P04",
		Rule: "An execution parses one document (RIDL or JSON) whose names at one kind of position are under test and compares the outcome with the naming rules; a state is a distinct expected schema or rejection.",
		Assumptions: []string{
			"names in RIDL are over ASCII letters, digits and underscore; in JSON over any Unicode scalar",
			"letter case is judged on ASCII letters",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p04Words(w), p04Keywords(), p04Clash(w), p04ClashWords(w), p04Far(w), p04Scopes(), p04Scalars(w), p04Inside(w), p04Empty(), p04Imports(), p04Contents()}
		},
	})
}

// namePlaces are the kinds of positions of names: each builds a document with
// the given names there, in order.
var namePlaces = []struct {
	name  string
	build func(names []string) *Doc
}{
	{"alias", func(ns []string) *Doc {
		d := NewDoc()
		for _, n := range ns {
			d.Add(&Alias{Name: n, T: N("string")})
		}
		return d
	}},
	{"enum", func(ns []string) *Doc {
		d := NewDoc()
		for _, n := range ns {
			d.Add(&Enum{Name: n, T: "int", Mem: []Member{{Name: "A"}}})
		}
		return d
	}},
	{"struct", func(ns []string) *Doc {
		d := NewDoc()
		for _, n := range ns {
			d.Add(&Struct{Name: n, Fields: []Field{{Name: "a", T: N("int")}}})
		}
		return d
	}},
	{"mixed", func(ns []string) *Doc {
		d := NewDoc()
		for i, n := range ns {
			switch i % 3 {
			case 0:
				d.Add(&Struct{Name: n, Fields: []Field{{Name: "a", T: N("int")}}})
			case 1:
				d.Add(&Alias{Name: n, T: N("string")})
			case 2:
				d.Add(&Enum{Name: n, T: "int", Mem: []Member{{Name: "A"}}})
			}
		}
		return d
	}},
	{"field", func(ns []string) *Doc {
		s := &Struct{Name: "St"}
		for i, n := range ns {
			s.Fields = append(s.Fields, Field{Name: n, T: N("int"), Opt: i%2 == 1})
		}
		return NewDoc(s, &Struct{Name: "Next", Fields: []Field{{Name: "z", T: N("int")}}})
	}},
	{"member", func(ns []string) *Doc {
		s := &Enum{Name: "En", T: "string"}
		for i, n := range ns {
			s.Mem = append(s.Mem, Member{Name: n, Val: lp(W(fmt.Sprintf("v%d", i)))})
		}
		return NewDoc(s, &Enum{Name: "Next", T: "int", Mem: []Member{{Name: "Z"}}})
	}},
	{"implicit", func(ns []string) *Doc {
		s := &Enum{Name: "En", T: "uint32"}
		for i, n := range ns {
			s.Mem = append(s.Mem, Member{Name: n})
			if i%3 == 2 {
				s.Mem[i].Val = lp(W("7"))
			}
		}
		return NewDoc(s, &Enum{Name: "Next", T: "int", Mem: []Member{{Name: "Z"}}})
	}},
	{"json", func(ns []string) *Doc {
		s := &Struct{Name: "St"}
		for i, n := range ns {
			s.Fields = append(s.Fields, Field{Name: fmt.Sprintf("fieldnumber%d", i), T: N("int"), Meta: []Meta{{Key: "x", Val: W("y")}, {Key: "json", Val: Q(n)}, {Key: "z", Val: W("y")}}})
		}
		return NewDoc(s)
	}},
	{"error", func(ns []string) *Doc {
		d := NewDoc()
		for i, n := range ns {
			d.Add(&Err{Code: fmt.Sprint(i + 1), Name: n, Msg: Q("m")})
		}
		return d
	}},
	{"service", func(ns []string) *Doc {
		d := NewDoc()
		for _, n := range ns {
			d.Add(&Svc{Name: n, Methods: []Method{{Name: "M"}}})
		}
		return d
	}},
	{"method", func(ns []string) *Doc {
		s := &Svc{Name: "Sv"}
		for i, n := range ns {
			s.Methods = append(s.Methods, Method{Name: n, HasOut: i%2 == 1})
		}
		return NewDoc(s)
	}},
	{"input", func(ns []string) *Doc {
		s := &Svc{Name: "Sv", Methods: []Method{{Name: "M"}}}
		for _, n := range ns {
			s.Methods[0].In = append(s.Methods[0].In, Arg{Name: n, T: N("int")})
		}
		return NewDoc(s)
	}},
	{"output", func(ns []string) *Doc {
		s := &Svc{Name: "Sv", Methods: []Method{{Name: "M", HasOut: true}}}
		for _, n := range ns {
			s.Methods[0].Out = append(s.Methods[0].Out, Arg{Name: n, T: N("int")})
		}
		return NewDoc(s)
	}},
}

const clashPlaces = 11 // the first places, where names must be unique

func p04Words(w *engine.W) *engine.Family {
	ns := words([]string{"a", "Z", "0", "_"}, 1, engine.Pick(w, 4, 6))
	return &engine.Family{
		Name: "words", Bound: fmt.Sprintf("all %d names over {a, Z, 0, _} at each of %d kinds of position, RIDL and JSON", len(ns), len(namePlaces)),
		Run: func(x *engine.X, w *engine.W) {
			p := namePlaces[x.Choose(len(namePlaces))]
			n := ns[x.Choose(len(ns))]
			k := x.Choose(2)
			runBoth(w, func() *Doc {
				names := []string{n}
				if k == 1 {
					names = []string{"Qq", n, "Ww"}
				}
				return p.build(names)
			})
		},
	}
}

func p04Keywords() *engine.Family {
	ws := vocabulary
	return &engine.Family{
		Name: "keywords", Bound: fmt.Sprintf("%d words of the language as names at each of %d kinds of position, RIDL and JSON", len(ws), len(namePlaces)),
		Run: func(x *engine.X, w *engine.W) {
			p := namePlaces[x.Choose(len(namePlaces))]
			n := ws[x.Choose(len(ws))]
			if p.name == "method" && (n == "stream" || n == "proxy") {
				return // reserved before a method name
			}
			runBoth(w, func() *Doc { return p.build([]string{"Qq", n, "Ww"}) })
		},
	}
}

// clashing and non-clashing pairs.
var clashPairs = [][2]string{
	{"Abc", "Abc"}, {"Abc", "ABC"}, {"AbC", "Abc"}, {"ABCDEFGHIJKLMNOPQRSTUVWXYZ", "AbcdefghijklmnopqrstuvwxyZ"},
	{"Abc", "Abcd"}, {"Abc", "Ab"}, {"A_b", "Ab"}, {"A1", "A2"}, {"Abc", "Xbc"}, {"A_B", "A_b"}, {"A1x", "A1X"}, {"X1", "X_1"}, {"A", "A_"},
}

func p04Clash(w *engine.W) *engine.Family {
	max := engine.Pick(w, 7, 10)
	return &engine.Family{
		Name: "clash", Bound: fmt.Sprintf("%d pairs of equal, case-equal and different names at all pairs of places among up to %d names, %d kinds of position, RIDL and JSON", len(clashPairs), max, clashPlaces),
		Run: func(x *engine.X, w *engine.W) {
			p := namePlaces[x.Choose(clashPlaces)]
			c := clashPairs[x.Choose(len(clashPairs))]
			n := 2 + x.Choose(max-1)
			i := x.Choose(n)
			j := x.Choose(n)
			if i == j {
				return
			}
			runBoth(w, func() *Doc { return p.build(withPair(n, i, j, c)) })
		},
	}
}

func withPair(n, i, j int, c [2]string) []string {
	names := make([]string, n)
	for k := range names {
		names[k] = fmt.Sprintf("Other%d", k)
	}
	names[i], names[j] = c[0], c[1]
	return names
}

// p04ClashWords compares all pairs of short names.
func p04ClashWords(w *engine.W) *engine.Family {
	ns := words([]string{"a", "A", "b", "_", "1"}, 0, engine.Pick(w, 2, 3))
	return &engine.Family{
		Name: "clash-words", Bound: fmt.Sprintf("all pairs of the %d names A+{a,A,b,_,1}^k at %d kinds of position, RIDL and JSON", len(ns), clashPlaces),
		Run: func(x *engine.X, w *engine.W) {
			p := namePlaces[x.Choose(clashPlaces)]
			a, b := ns[x.Choose(len(ns))], ns[x.Choose(len(ns))]
			runBoth(w, func() *Doc { return p.build([]string{"A" + a, "A" + b}) })
		},
	}
}

func p04Far(w *engine.W) *engine.Family {
	max := engine.Pick(w, 80, 300)
	return &engine.Family{
		Name: "clash-far", Bound: fmt.Sprintf("a case clash between the first or last and each other of up to %d names", max),
		Run: func(x *engine.X, w *engine.W) {
			p := namePlaces[x.Choose(clashPlaces)]
			n := 8 + 9*x.Choose(max/9)
			first := x.Bool()
			i := 0
			if first {
				i = n - 1
			}
			step := 1 + n/10
			j := step * x.Choose((n+step-1)/step)
			if i == j {
				return
			}
			runBoth(w, func() *Doc { return p.build(withPair(n, i, j, [2]string{"Same", "SAME"})) })
		},
	}
}

// p04Scopes uses one name in every scope that does not share names.
func p04Scopes() *engine.Family {
	return &engine.Family{
		Name: "scopes", Bound: "every subset of the scopes of names using the same name once each, and fields, members and methods repeated over two owners",
		Run: func(x *engine.X, w *engine.W) {
			var on [10]bool
			for i := range on {
				on[i] = x.Bool()
			}
			variant := []string{"Same", "same", "SAME"}
			k := x.Choose(3)
			runBoth(w, func() *Doc {
				d := NewDoc()
				v := func(i int) string { return variant[(i+k)%3] }
				if on[0] {
					d.Add(&Struct{Name: "Same", Fields: []Field{{Name: v(0), T: N("int")}}})
				}
				if on[1] {
					d.Add(&Err{Code: "1", Name: "Same", Msg: Q("m")})
				}
				if on[2] {
					d.Add(&Svc{Name: v(1), Methods: []Method{{Name: v(2), In: []Arg{{Name: v(0), T: N("int")}}, HasOut: true, Out: []Arg{{Name: v(1), T: N("int")}}}}})
				}
				if on[3] {
					d.Add(&Struct{Name: "Two", Fields: []Field{{Name: v(2), T: N("int")}}})
				}
				if on[4] {
					d.Add(&Enum{Name: "Ea", T: "int", Mem: []Member{{Name: v(0)}}})
				}
				if on[5] {
					d.Add(&Enum{Name: "Eb", T: "int", Mem: []Member{{Name: v(1)}}})
				}
				if on[6] {
					d.Add(&Svc{Name: "Other", Methods: []Method{{Name: v(0)}}})
				}
				if on[7] {
					d.Add(&Struct{Name: "Js", Fields: []Field{{Name: "a", T: N("int"), Meta: []Meta{{Key: "json", Val: W(v(2))}}}}})
				}
				if on[8] {
					d.Add(&Struct{Name: "Jt", Fields: []Field{{Name: v(0), T: N("int"), Meta: []Meta{{Key: "json", Val: W("b")}}}, {Name: "b", T: N("int"), Meta: []Meta{{Key: "json", Val: W(v(1))}}}}})
				}
				if on[9] {
					d.Add(&Struct{Name: "Ju", Fields: []Field{{Name: v(0), T: N("int"), Meta: []Meta{{Key: "json", Val: Q("-")}}}, {Name: "b", T: N("int"), Meta: []Meta{{Key: "json", Val: W("c")}}}}})
				}
				return d
			})
		},
	}
}

func jstr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

// p04Scalars judges every Unicode scalar as the first character of a name.
func p04Scalars(w *engine.W) *engine.Family {
	type place struct {
		name string
		json func(n string) string
		ok   func(n string) bool
	}
	field := func(n string) bool { return fieldNameOK(n) }
	typ := func(n string) bool { r, _ := utf8.DecodeRuneInString(n); return unicode.IsUpper(r) }
	places := []place{
		{"type", func(n string) string {
			return `{"webrpc":"v1","types":[{"kind":"struct","name":` + jstr(n) + `}]}`
		}, typ},
		{"error", func(n string) string {
			return `{"webrpc":"v1","errors":[{"code":1,"httpStatus":400,"message":"m","name":` + jstr(n) + `}]}`
		}, typ},
		{"field", func(n string) string {
			return `{"webrpc":"v1","types":[{"kind":"struct","name":"S","fields":[{"type":"int","name":` + jstr(n) + `}]}]}`
		}, field},
		{"member", func(n string) string {
			return `{"webrpc":"v1","types":[{"kind":"enum","type":"int","name":"S","fields":[{"value":"1","name":` + jstr(n) + `}]}]}`
		}, field},
		{"json", func(n string) string {
			return `{"webrpc":"v1","types":[{"kind":"struct","name":"S","fields":[{"type":"int","name":"a","meta":[{"json":` + jstr(n) + `}]}]}]}`
		}, func(n string) bool { return n == "-" || fieldNameOK(n) }},
		{"method", func(n string) string {
			return `{"webrpc":"v1","version":"1","services":[{"name":"S","methods":[{"name":` + jstr(n) + `}]}]}`
		}, func(n string) bool { return true }},
		{"service", func(n string) string {
			return `{"webrpc":"v1","version":"1","services":[{"name":` + jstr(n) + `,"methods":[{"name":"M"}]}]}`
		}, func(n string) bool { return true }},
	}
	const chunk = 256
	shapes := []string{"%s", "%sx", "x%s", "X%sy"}
	top := engine.Pick(w, 0x11000, 0x110000)
	return &engine.Family{
		Name: "scalars", Bound: fmt.Sprintf("every Unicode scalar below %#x alone, first, last and inside a name at %d kinds of position (JSON)", top, len(places)),
		Run: func(x *engine.X, w *engine.W) {
			p := places[x.Choose(len(places))]
			sh := shapes[x.Choose(len(shapes))]
			from := chunk * x.Choose(top/chunk)
			if !w.Mine(func() string { return fmt.Sprintf("%s named %q for U+%04X..U+%04X", p.name, sh, from, from+chunk-1) }) {
				return
			}
			for r := rune(from); r < rune(from+chunk); r++ {
				if r >= 0xd800 && r < 0xe000 {
					continue
				}
				n := strings.Replace(sh, "%s", string(r), 1)
				if p.name == "error" && strings.TrimSpace(n) != n {
					continue
				}
				_, err := parseJSON(p.json(n))
				w.Step(1)
				if (err == nil) != p.ok(n) {
					w.Fail("name", "%s named %q: accepted=%v, the rules say %v (%v)", p.name, n, err == nil, p.ok(n), err)
					return
				}
			}
			w.State(fmt.Sprint(p.name, sh, from))
		},
	}
}

// p04Inside puts every ASCII character into RIDL names.
func p04Inside(w *engine.W) *engine.Family {
	return &engine.Family{
		Name: "ridl-ascii", Bound: "every pair of name characters in every kind of RIDL name, after each kind of first letter",
		Run: func(x *engine.X, w *engine.W) {
			const cs = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
			p := namePlaces[x.Choose(len(namePlaces))]
			first := []string{"Q", "q"}[x.Choose(2)]
			a := x.Choose(len(cs))
			b := x.Choose(engine.Pick(w, 4, len(cs)))
			d := func() *Doc { return p.build([]string{first + cs[a:a+1] + cs[len(cs)-1-b:len(cs)-b]}) }
			if w.Mine(func() string { return d().RIDL() }) {
				want, ok := d().Expect()
				expect(w, d().RIDL(), want, ok)
			}
		},
	}
}

func p04Empty() *engine.Family {
	bad := []string{"", " "}
	return &engine.Family{
		Name: "empty", Bound: "an empty name at every kind of position among up to 3 names (JSON)",
		Run: func(x *engine.X, w *engine.W) {
			p := namePlaces[x.Choose(len(namePlaces))]
			n := 1 + x.Choose(3)
			at := x.Choose(n)
			e := bad[x.Choose(2)]
			if e == " " && p.name != "error" {
				return
			}
			names := []string{"Qa", "Qb", "Qc"}[:n:n]
			names = append([]string{}, names...)
			names[at] = e
			if w.Mine(func() string { return p.build(names).JSON(false) }) {
				_, err := parseJSON(p.build(names).JSON(false))
				w.Step(1)
				w.State(p.name)
				if err == nil {
					w.Fail("accepted", "an empty name was accepted")
				}
			}
		},
	}
}

// p04Imports lets the clashing names come from different files.
func p04Imports() *engine.Family {
	return &engine.Family{
		Name: "clash-imports", Bound: "every clash pair of types, errors and services between a file and its import, or two imports",
		Run: func(x *engine.X, w *engine.W) {
			ps := []int{0, 1, 2, 3, 8, 9}
			p := namePlaces[ps[x.Choose(len(ps))]]
			c := clashPairs[x.Choose(len(clashPairs))]
			shape := x.Choose(3)
			text := func() map[string]string {
				// a imports b (and c); error codes must differ
				one := p.build([]string{c[0], "Aside"})
				two := p.build([]string{"Beside", "Third", c[1]})
				for i, it := range two.Items {
					if e, ok := it.(*Err); ok {
						e.Code = fmt.Sprint(100 + i)
					}
				}
				h := NewDoc()
				switch shape {
				case 0:
					one.Add(&Imp{Path: W("b.ridl")})
					return map[string]string{"a.ridl": one.RIDL(), "b.ridl": two.RIDL()}
				case 1:
					h.Add(&Imp{Path: W("b.ridl")}, &Imp{Path: W("c.ridl")})
				case 2:
					h.Add(&Imp{Path: W("c.ridl")})
					one.Add(&Imp{Path: W("b.ridl")})
				}
				return map[string]string{"a.ridl": h.RIDL(), "c.ridl": one.RIDL(), "b.ridl": two.RIDL()}
			}
			if !w.Mine(func() string { return fmt.Sprint(text()) }) {
				return
			}
			s, err := parseFS(memFS(text()), "a.ridl")
			w.Step(1)
			clash := strings.EqualFold(c[0], c[1])
			w.State(fmt.Sprint(p.name, c, shape))
			if clash && err == nil {
				w.Fail("accepted", "clashing names of different files were accepted:\n%s", Real(s))
			}
			if !clash && err != nil {
				w.Fail("rejected", "names that do not clash were rejected: %v", err)
			}
		},
	}
}

// p04Contents gives two things of a case-equal or nearly equal name each of several
// contents.
func p04Contents() *engine.Family {
	trail := "trailing"
	note := Cm{Doc: []string{"about it"}, Trail: &trail}
	js := []Meta{{Key: "json", Val: W("other")}}
	tag := []Meta{{Key: "go.tag.db", Val: W("x")}}
	types := []func(n string, i int) any{
		func(n string, i int) any { return &Struct{Name: n} },
		func(n string, i int) any { return &Struct{Name: n, Fields: []Field{{Name: "a", T: N("int")}}} },
		func(n string, i int) any {
			return &Struct{Name: n, Cm: note, Fields: []Field{{Name: "b", T: L(N("string")), Opt: true}, {Name: "c", T: M("string", N("any"))}}}
		},
		func(n string, i int) any { return &Enum{Name: n, T: "int", Mem: []Member{{Name: "A"}}} },
		func(n string, i int) any {
			return &Enum{Name: n, T: "string", Mem: []Member{{Name: "A"}, {Name: "B", Val: lp(Q("b"))}}}
		},
		func(n string, i int) any { return &Enum{Name: n, T: "uint8"} },
		func(n string, i int) any { return &Alias{Name: n, T: N("string")} },
		func(n string, i int) any { return &Alias{Name: n, T: L(N("Zz"))} },
		func(n string, i int) any { return &Alias{Name: n, T: M("string", N("int")), Meta: tag, Cm: note} },
	}
	fields := []Field{
		{T: N("int")}, {T: N("int"), Opt: true}, {T: N("string")}, {T: L(N("Zz"))}, {T: M("string", N("Zz"))}, {T: N("Zz")},
		{T: N("int"), Meta: tag}, {T: N("string"), Meta: js}, {T: N("int"), Cm: note}, {T: N("any"), Meta: []Meta{{Key: "json", Val: Q("-")}}},
	}
	mems := []Member{{}, {Val: lp(W("1"))}, {Val: lp(W("77"))}, {Cm: note}, {Val: lp(Q("5")), Cm: note}}
	errs := []Err{{Msg: Q("m")}, {Msg: Q("n")}, {Msg: Q("m"), HTTP: "404"}, {Msg: Q("m"), HTTP: "599", Cm: note}}
	in := []Arg{{Name: "x", T: N("int")}}
	out := []Arg{{Name: "y", T: L(N("Zz")), Opt: true}}
	meths := []Method{
		{}, {In: in}, {HasOut: true, Out: out}, {In: in, HasOut: true, Out: out}, {HasOut: true, Out: out, SOut: true}, {In: in, SIn: true},
		{In: in, Errs: []string{"Ee"}}, {Cm: note}, {Ann: []Ann{{Name: "auth", Val: lp(W("x"))}}}, {Succ: "Zz", SuccOut: "Zz"},
	}
	svcs := []func(n string) *Svc{
		func(n string) *Svc { return &Svc{Name: n, Methods: []Method{{Name: "M"}}} },
		func(n string) *Svc { return &Svc{Name: n, Methods: []Method{{Name: "Other", In: in}}} },
		func(n string) *Svc { return &Svc{Name: n, Methods: []Method{{Name: "M"}, {Name: "N"}, {Name: "O"}}} },
		func(n string) *Svc {
			return &Svc{Name: n, Cm: note, Methods: []Method{{Name: "S", HasOut: true, Out: out, SOut: true}}}
		},
		func(n string) *Svc { return &Svc{Name: n} },
		func(n string) *Svc { return &Svc{Name: n, Methods: []Method{{Name: "Other", Errs: []string{"Ee"}}}} },
	}
	sizes := []int{len(types), len(fields), len(mems), len(errs), len(svcs), len(meths), len(fields)}
	pairs := clashPairs[:8]
	return &engine.Family{
		Name: "clash-contents", Bound: "two types, fields, members, errors, services, methods or arguments of equal, case-equal and different names, next to each other or not, each of every of up to 10 contents",
		Run: func(x *engine.X, w *engine.W) {
			scope := x.Choose(len(sizes))
			k := []int{x.Choose(sizes[scope]), x.Choose(sizes[scope])}
			c := pairs[x.Choose(len(pairs))]
			apart := x.Bool()
			runBoth(w, func() *Doc {
				d := NewDoc(&Struct{Name: "Zz"}, &Err{Code: "9", Name: "Ee", Msg: Q("e")})
				st, en := &Struct{Name: "Holder"}, &Enum{Name: "Holds", T: "int"}
				sv := &Svc{Name: "Served"}
				arg := Method{Name: "Args"}
				for i := 0; i < 2; i++ {
					switch scope {
					case 0:
						d.Add(types[k[i]](c[i], i))
					case 1:
						f := fields[k[i]]
						f.Name = c[i]
						if len(f.Meta) > 0 && f.Meta[0].Key == "json" && f.Meta[0].Val.V == "other" {
							f.Meta = []Meta{{Key: "json", Val: W(fmt.Sprintf("other%d", i))}}
						}
						st.Fields = append(st.Fields, f)
					case 2:
						m := mems[k[i]]
						m.Name = c[i]
						en.Mem = append(en.Mem, m)
					case 3:
						e := errs[k[i]]
						e.Name, e.Code = c[i], fmt.Sprint(20+i)
						d.Add(&e)
					case 4:
						d.Add(svcs[k[i]](c[i]))
					case 5:
						m := meths[k[i]]
						m.Name = c[i]
						sv.Methods = append(sv.Methods, m)
					case 6:
						f := fields[k[i]]
						arg.In = append(arg.In, Arg{Name: c[i], T: f.T, Opt: f.Opt})
					}
					if i == 0 && apart {
						switch scope {
						case 0:
							d.Add(&Struct{Name: "Amid"})
						case 1:
							st.Fields = append(st.Fields, Field{Name: "amid", T: N("bool")})
						case 2:
							en.Mem = append(en.Mem, Member{Name: "Amid"})
						case 3:
							d.Add(&Err{Code: "33", Name: "Amid", Msg: Q("m")})
						case 4:
							d.Add(&Svc{Name: "Amid", Methods: []Method{{Name: "M"}}})
						case 5:
							sv.Methods = append(sv.Methods, Method{Name: "Amid"})
						case 6:
							arg.In = append(arg.In, Arg{Name: "amid", T: N("int")})
						}
					}
				}
				if len(arg.In) > 0 {
					sv.Methods = append(sv.Methods, arg)
				}
				if len(sv.Methods) > 0 {
					d.Add(sv)
				}
				return d.Add(st, en)
			})
		},
	}
}

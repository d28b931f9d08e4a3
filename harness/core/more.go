package main

import (
	"fmt"
	"strings"

	engine "verifengine"
)

// p02Fields: every combination of what a field can have.
func p02Fields(w *engine.W) *engine.Family {
	ts := []*TE{N("string"), N("any"), N("Item"), N("Id"), N("Kind"), L(N("byte")), L(N("Item")), L(L(N("Kind"))), M("string", N("int")), M("Kind", L(N("Item")))}
	cms := []Cm{{}, {Doc: []string{"d"}}, {Trail: str("t")}, {Doc: []string{"d", "e"}, Trail: str("t")}}
	nm := engine.Pick(w, 5, 7)
	return &engine.Family{
		Name: "fields", Bound: fmt.Sprintf("every combination of %d types, optional or not, 0..%d metadata of 2 kinds with comments or not, %d comments and 3 places of a field among others", len(ts), nm-1, len(cms)),
		Run: func(x *engine.X, w *engine.W) {
			f := Field{Name: "f", T: ts[x.Choose(len(ts))], Opt: x.Bool(), Cm: cms[x.Choose(len(cms))]}
			n := x.Choose(nm)
			json, cm := x.Bool(), x.Bool()
			for i := 0; i < n; i++ {
				m := Meta{Key: fmt.Sprintf("k%d", i), Val: W(fmt.Sprintf("v%d", i))}
				if json && i == n-1 {
					m = Meta{Key: "json", Val: Q("other")}
				}
				if cm {
					m.Cm = Cm{Trail: str("c")}
				}
				f.Meta = append(f.Meta, m)
			}
			at := x.Choose(3)
			runBoth(w, func() *Doc {
				st := &Struct{Name: "St"}
				for i := 0; i < 3; i++ {
					if i == at {
						st.Fields = append(st.Fields, f)
					} else {
						st.Fields = append(st.Fields, Field{Name: fmt.Sprintf("g%d", i), T: N("int"), Opt: i == 1})
					}
				}
				return NewDoc(support()...).Add(st)
			})
		},
	}
}

// aMethod is a combination of what a method can have; its arguments have the
// types T0, T1, ... that are declared by argTypes.
func aMethod(x *engine.X, small bool) Method {
	m := Method{Name: "M"}
	if x.Bool() {
		m.SIn = true
	}
	if x.Bool() {
		m.SOut = true
	}
	succ := x.Bool()
	n := 0
	arg := func(name string, opt bool) Arg {
		t := N(fmt.Sprintf("T%d", n))
		if n++; n%3 == 0 {
			t = L(t)
		}
		return Arg{Name: name, T: t, Opt: opt}
	}
	if succ {
		m.Succ, m.SuccOut, m.HasOut = "T0", "T1", true
		if m.SIn = m.SIn && !small; m.SIn {
			m.SuccOut = "T0"
		}
	} else {
		ni, no, opts := x.Choose(5), x.Choose(5), x.Choose(4)
		for i := 0; i < ni; i++ {
			m.In = append(m.In, arg(fmt.Sprintf("a%d", i), opts == 1 || opts == 2 && i == ni-1 || opts == 3 && i == 0))
		}
		for i := 0; i < no; i++ {
			m.HasOut = true
			m.Out = append(m.Out, arg(fmt.Sprintf("b%d", i), opts == 1 || opts == 2 && i == 0 || opts == 3 && i == no-1))
		}
		if no == 0 {
			m.HasOut = m.SOut
		}
	}
	na, ne := 3, 3
	if small {
		na, ne = 2, 2
	}
	for i, k := 0, x.Choose(na); i < k; i++ {
		m.Ann = append(m.Ann, Ann{Name: fmt.Sprintf("n%d", i), Val: p26Vals[i%len(p26Vals)], NL: true})
	}
	for i, k := 0, x.Choose(ne); i < k; i++ {
		m.Errs = append(m.Errs, []string{"Base", "Basic"}[i])
	}
	if x.Bool() {
		m.Cm = Cm{Doc: []string{"doc"}, Trail: str("t")}
	}
	return m
}

// argTypes are types for the arguments of aMethod, and more of them.
func argTypes() []any {
	out := []any{&Err{Code: "1", Name: "Base", Msg: Q("b")}, &Err{Code: "2", Name: "Basic", Msg: Q("c")}}
	for i := 0; i < 9; i++ {
		out = append(out, &Struct{Name: fmt.Sprintf("T%d", i), Fields: []Field{{Name: "u", T: L(N(fmt.Sprintf("U%d", i)))}}},
			&Struct{Name: fmt.Sprintf("U%d", i), Fields: []Field{{Name: "x", T: N("int")}}})
	}
	return out
}

func p02Methods(w *engine.W) *engine.Family {
	return &engine.Family{
		Name: "methods", Bound: "every combination of streaming, form, 0..4 inputs and outputs, which of them are optional, 0..2 annotations, 0..2 errors and comments of a method, alone or between others",
		Run: func(x *engine.X, w *engine.W) {
			m := aMethod(x, false)
			runBoth(w, func() *Doc {
				ms := []Method{m}
				if len(m.In)%2 == 0 {
					ms = []Method{{Name: "Before", In: []Arg{{Name: "a", T: N("T8")}}}, m, {Name: "After", Errs: []string{"Basic"}}}
				}
				return NewDoc(argTypes()...).Add(&Svc{Name: "Sv", Methods: ms})
			})
		},
	}
}

// p11Methods: what every form of method needs is kept.
func p11Methods(w *engine.W) *engine.Family {
	return &engine.Family{
		Name: "methods", Bound: "every combination of streaming, form, 0..4 inputs and outputs of different types, which of them are optional, annotations, errors and comments of a method of the kept and of the other service, RIDL and JSON",
		Run: func(x *engine.X, w *engine.W) {
			m := aMethod(x, true)
			in, json := []string{"In", "Other"}[x.Choose(2)], x.Bool()
			build := func() *Doc {
				return NewDoc(argTypes()...).Add(&Svc{Name: "In", Methods: []Method{{Name: "L", In: []Arg{{Name: "a", T: N("T8")}}}, m}},
					&Svc{Name: "Other", Methods: []Method{{Name: "O", HasOut: true, Out: []Arg{{Name: "z", T: L(N("U7"))}}}}})
			}
			if w.Mine(func() string { return in + "\n" + build().RIDL() }) {
				shake(w, build(), json, []string{in})
			}
		},
	}
}

// affixed are names that people take for each other.
func affixed(n string) (out []string) {
	out = []string{n, strings.ToLower(n), strings.ToUpper(n)}
	for _, a := range []string{"Service", "service", "Svc", "API", "Api", "Server", "Client", "Interface", "RPC", "Rpc", "s", "V1", "V2", "1", "2", "_", "0", "X", "*", "?", "/", ".", ",", "-"} {
		out = append(out, n+a, a+n)
	}
	return append(out, "I"+n, n+n, n[1:], n[:len(n)-1], "*", "?", ".*", "all", "All", "["+n+"]", n+","+n, n+" "+n, "\""+n+"\"", "!"+n, "~"+n, "^"+n+"$")
}

// plainName tells that a service can have this name.
func plainName(n string) bool {
	t, rest := refName(n)
	return t != nil && rest == "" && asciiLetter(n[0])
}

// p11Near: a service is kept under its own name only.
func nearServices(name string, do func(w *engine.W, d *Doc, json bool, list []string)) *engine.Family {
	have := []string{}
	for _, n := range affixed("Ab") {
		if plainName(n) {
			have = append(have, n)
		}
	}
	ask := affixed("Ab")
	return &engine.Family{
		Name: "near-names", Bound: fmt.Sprintf("%d names of a service by %d names asked for, alone and with another service", len(have), len(ask)),
		Run: func(x *engine.X, w *engine.W) {
			h, a := have[x.Choose(len(have))], ask[x.Choose(len(ask))]
			other, swap := x.Bool(), x.Bool()
			if swap && !plainName(a) {
				return
			}
			build := func() *Doc {
				v := &Svc{Name: h, Methods: []Method{{Name: "M", In: []Arg{{Name: "a", T: N("St")}}}}}
				d := NewDoc(&Struct{Name: "St"}, &Struct{Name: "Su"}, v)
				if other {
					d.Add(&Svc{Name: "Other", Methods: []Method{{Name: "M", In: []Arg{{Name: "a", T: N("Su")}}}}})
				}
				return d
			}
			list := []string{a}
			if swap {
				list = []string{"Nope", a, "Other"}
			}
			if w.Mine(func() string { return fmt.Sprintf("%q\n%s", list, build().RIDL()) }) {
				do(w, build(), len(h)%2 == 0, list)
			}
		},
	}
}

func p11Near() *engine.Family {
	return nearServices("near-names", func(w *engine.W, d *Doc, json bool, list []string) { shake(w, d, json, list) })
}

func p10Near() *engine.Family {
	return nearServices("near-names", func(w *engine.W, d *Doc, json bool, list []string) {
		applyOps(w, d, json, []op{{kind: 's', svcs: list}})
	})
}

// p05Punct: other punctuation is not part of any type.
func p05Punct(w *engine.W) *engine.Family {
	seeds := []string{"En", "[]En", "map<string,int>", "map<En,[]St>", "[]map<int,map<Ae,St>>"}
	var ps []string
	for c := rune(1); c < 127; c++ {
		if !(asciiLetter(byte(c)) || c >= '0' && c <= '9' || c == '_') && !strings.ContainsRune("\"\\ \t\n\r#|", c) && c >= ' ' {
			ps = append(ps, string(c))
		}
	}
	ps = append(ps, "é", "，", "＜", "‹", "\u00a0", "::", "->", "=>", "..", "()", "{}")
	return &engine.Family{
		Name: "punctuation", Bound: fmt.Sprintf("%d texts put in, or in the place of a character, anywhere in %d expressions, as the type of a field, alias or argument, RIDL and JSON", len(ps), len(seeds)),
		Run: func(x *engine.X, w *engine.W) {
			s := seeds[x.Choose(len(seeds))]
			at, p := x.Choose(len(s)+1), ps[x.Choose(len(ps))]
			n := x.Choose(2)
			if at+n > len(s) {
				return
			}
			pos := x.Choose(3)
			s = s[:at] + p + s[at+n:]
			if pos == 2 && strings.ContainsAny(s[:1]+s[len(s)-1:], ",)=(") || s == "" {
				return // a superfluous comma, or the end of the arguments
			}
			p05Judge(w, s, pos)
		},
	}
}

// p05Adorned: keys and values under names whose definitions have everything a
// definition can have.
func p05Adorned() *engine.Family {
	cms := []Cm{{}, {Doc: []string{"d"}}, {Trail: str("t")}, {Doc: []string{"d"}, Trail: str("t"), Far: []string{"f"}}}
	bases := []string{"En", "Es", "Al", "Ab", "As"}
	return &engine.Family{
		Name: "adorned", Bound: fmt.Sprintf("an alias of an alias of each of %d kinds, with 0..3 metadata and %d comments on each, as a map key and value at 3 places, before or after them, RIDL and JSON", len(bases), len(cms)),
		Run: func(x *engine.X, w *engine.W) {
			base := bases[x.Choose(len(bases))]
			deep := x.Bool()
			n, c := x.Choose(4), cms[x.Choose(len(cms))]
			pos, after, key := x.Choose(3), x.Bool(), x.Bool()
			runBoth(w, func() *Doc {
				metas := func() (out []Meta) {
					for i := 0; i < n; i++ {
						out = append(out, Meta{Key: fmt.Sprintf("k%d", i), Val: W("v")})
					}
					return
				}
				ts := []any{
					&Enum{Name: "En", T: "uint8", Cm: c, Mem: []Member{{Name: "A", Cm: c}}},
					&Enum{Name: "Es", T: "string", Cm: c, Mem: []Member{{Name: "A"}, {Name: "B", Val: lp(W("b")), Cm: c}}},
					&Alias{Name: "Al", T: N("string"), Cm: c, Meta: metas()},
					&Alias{Name: "Ab", T: N("uint64"), Cm: c, Meta: metas()},
					&Struct{Name: "As", Cm: c},
					&Alias{Name: "X", T: N(base), Cm: c, Meta: metas()},
				}
				t := "X"
				if deep {
					ts = append(ts, &Alias{Name: "Y", T: N("X"), Meta: metas()})
					t = "Y"
				}
				te := M(t, N("int"))
				if !key {
					te = L(N(t))
				}
				var use any
				switch pos {
				case 0:
					use = &Struct{Name: "Use", Fields: []Field{{Name: "f", T: te, Opt: n == 1, Meta: metas(), Cm: c}}}
				case 1:
					use = &Alias{Name: "Use", T: te, Meta: metas(), Cm: c}
				default:
					use = &Svc{Name: "Use", Cm: c, Methods: []Method{{Name: "M", In: []Arg{{Name: "a", T: te, Opt: n == 1}}, HasOut: true, Out: []Arg{{Name: "b", T: M("int", te)}}, Cm: c}}}
				}
				if after {
					return NewDoc(ts...).Add(use)
				}
				return NewDoc(use).Add(ts...)
			})
		},
	}
}

// p18Lists: one bad item anywhere in a list of any length.
func p18Lists(w *engine.W) *engine.Family {
	head := `{"webrpc":"v1","name":"n","version":"v1",`
	lists := []struct{ name, pre, item, post string }{
		{"types", head + `"types":[`, `{"kind":"struct","name":"St%d","fields":[]}`, `]}`},
		{"enums", head + `"types":[`, `{"kind":"enum","name":"St%d","type":"int","fields":[{"name":"A","value":"1"}]}`, `]}`},
		{"fields", head + `"types":[{"kind":"struct","name":"St","fields":[`, `{"name":"f%d","type":"int"}`, `]}]}`},
		{"members", head + `"types":[{"kind":"enum","name":"En","type":"int","fields":[`, `{"name":"M%d","value":"%[1]d"}`, `]}]}`},
		{"errors", head + `"errors":[`, `{"code":1%d,"name":"Er%[1]d","message":"m","httpStatus":400}`, `]}`},
		{"services", head + `"services":[`, `{"name":"Sv%d","methods":[{"name":"M"}]}`, `]}`},
		{"methods", head + `"services":[{"name":"Sv","methods":[`, `{"name":"M%d"}`, `]}]}`},
		{"inputs", head + `"services":[{"name":"Sv","methods":[{"name":"M","inputs":[`, `{"name":"a%d","type":"int"}`, `]}]}]}`},
		{"outputs", head + `"services":[{"name":"Sv","methods":[{"name":"M","outputs":[`, `{"name":"a%d","type":"int"}`, `]}]}]}`},
		{"metas", head + `"types":[{"kind":"struct","name":"St","fields":[{"name":"f","type":"int","meta":[`, `{"k%d":"v"}`, `]}]}]}`},
		{"method errors", head + `"errors":[{"code":1,"name":"Er","message":"m","httpStatus":400}],"services":[{"name":"Sv","methods":[{"name":"M","errors":[`, `"Er%.0d"`, `]}]}]}`},
		{"comments", head + `"types":[{"kind":"struct","name":"St","comments":[`, `"c%d"`, `]}]}`},
	}
	bad := []string{"null", "0", "7", "true", "\"\"", "\"x\"", "[]", "[null]", "{}", "{\"name\":\"\"}", "{\"name\":null}", "{\"name\":\"q\"}", "{\"name\":7}", "{\"name\":\"q\",\"type\":null}", "{\"name\":\"q\",\"type\":\"\"}", "{\"name\":\"q\",\"type\":\"nope\"}", "{\"kind\":\"struct\"}", "{\"kind\":null,\"name\":\"q\"}", "{\"kind\":\"nope\",\"name\":\"q\"}"}
	n := engine.Pick(w, 9, 20)
	return &engine.Family{
		Name: "lists", Bound: fmt.Sprintf("%d lists of up to %d items with each of %d bad items at each index, and two of them", len(lists), n, len(bad)),
		Run: func(x *engine.X, w *engine.W) {
			l := lists[x.Choose(len(lists))]
			k := 1 + x.Choose(n)
			at, b := x.Choose(k), bad[x.Choose(len(bad))]
			second := -1
			if x.Bool() {
				if at+1 == k {
					return
				}
				second = k - 1
			}
			var items []string
			for i := 0; i < k; i++ {
				if i == at || i == second {
					items = append(items, b)
				} else {
					items = append(items, fmt.Sprintf(l.item, i))
				}
			}
			text := l.pre + strings.Join(items, ",") + l.post
			if w.Mine(func() string { return text }) {
				totalJSON(w, text)
			}
		},
	}
}

// p19Blanks: white space between the words of a comment, however much.
func p19Blanks(w *engine.W) *engine.Family {
	ns := engine.Pick(w, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 32, 64, 100, 255, 256, 1000}, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 4096, 65536})
	kinds := []string{" ", "\t", " \t", "\t "}
	forms := []string{"a%[1]sb", "%[1]sa", "a%[1]s", "a%[1]sb%[1]sc d%[1]se", "\"a%[1]sb\" #%[1]s- x", "a,%[1]sb.%[1]s(c)"}
	sites := []string{"alias Al", "En.A", "St.x", "Sv.Mb", "error Ea", "Al meta", "head name"}
	return &engine.Family{
		Name: "blanks", Bound: fmt.Sprintf("%d kinds of white space up to %d times at the places of %d texts, above or beside %d places", len(kinds), ns[len(ns)-1], len(forms), len(sites)),
		Run: func(x *engine.X, w *engine.W) {
			ws := strings.Repeat(kinds[x.Choose(len(kinds))], ns[x.Choose(len(ns))])
			t := " " + fmt.Sprintf(forms[x.Choose(len(forms))], ws)
			at, beside := sites[x.Choose(len(sites))], x.Bool()
			build := func() *Doc {
				d := p19Small()
				cs, names := d.sites()
				for i, n := range names {
					if n == at && beside {
						cs[i].Trail = &t
					} else if n == at {
						cs[i].Doc = []string{t}
					}
				}
				return d
			}
			if w.Mine(func() string { return build().raw() }) {
				d := build()
				p19Check(w, d, d.raw())
			}
		},
	}
}

// p02Huge: documents of millions of characters.
func p02Huge(w *engine.W) *engine.Family {
	sizes := engine.Pick(w, []int{1<<20 + 1}, []int{1 << 16, 1<<16 + 1, 1 << 18, 1 << 20, 1<<20 + 1, 1<<21 + 1, 5 << 20})
	return &engine.Family{
		Name: "huge", Bound: fmt.Sprintf("documents of every construct over and over and of one long comment or string, of %v characters", sizes),
		Run: func(x *engine.X, w *engine.W) {
			n, kind, json := sizes[x.Choose(len(sizes))], x.Choose(4), x.Bool()
			if !w.Mine(func() string { return fmt.Sprintf("%d characters of kind %d, JSON %v", n, kind, json) }) {
				return
			}
			w.Heartbeat()
			d := NewDoc(support()...)
			switch kind {
			case 0:
				d.Add(&Err{Code: "77", Name: "Long", Msg: Q(strings.Repeat("message ", n/8))})
			case 1:
				d.Add(&Struct{Name: "Long", Cm: Cm{Doc: []string{strings.Repeat("comment ", n/8) + "end"}}})
			case 2:
				per := 60
				st := &Struct{Name: "Long"}
				for i := 0; i*per < n; i++ {
					st.Fields = append(st.Fields, Field{Name: fmt.Sprintf("aRatherLongFieldName%d", i), T: M("string", L(N("Item"))), Opt: i%2 == 0, Cm: Cm{Trail: str("comment")}})
				}
				d.Add(st)
			case 3:
				for i, size := 0, 0; size < n; i++ {
					d.Add(&Svc{Name: fmt.Sprintf("Service%d", i), Methods: []Method{{Name: "Ping"}, {Name: "Get", In: []Arg{{Name: "id", T: N("Id")}, {Name: "kind", T: N("Kind"), Opt: true}}, HasOut: true, SOut: true, Out: []Arg{{Name: "item", T: N("Item")}}, Errs: []string{"Base"}, Ann: []Ann{{Name: "internal"}}}}})
					size += 150
				}
			}
			d.Add(&Struct{Name: "Last", Fields: []Field{{Name: "x", T: N("Item")}}})
			if json {
				runJSON(w, d)
			} else {
				want, ok := d.Expect()
				expect(w, d.RIDL(), want, ok)
			}
		},
	}
}

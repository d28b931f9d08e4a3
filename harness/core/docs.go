package main

import "fmt"

func str(s string) *string { return &s }
func lp(l Lit) *Lit        { return &l }

// menu is one definition of each construct, named after position i, referring
// only to the fixed types of support().
const menuSize = 20

func menu(k, i int) any {
	n := fmt.Sprint(i)
	switch k {
	case 0:
		return &Alias{Name: "Al" + n, T: N("string")}
	case 1:
		return &Alias{Name: "Al" + n, T: M("string", L(N("Item"))), Meta: []Meta{{Key: "go.type", Val: W("x.Y" + n)}, {Key: "ts", Val: Q("a b")}}}
	case 2:
		return &Enum{Name: "En" + n, T: "uint32", Mem: []Member{{Name: "A"}, {Name: "B", Val: lp(W("7"))}, {Name: "C"}}}
	case 3:
		return &Enum{Name: "En" + n, T: "string", Mem: []Member{{Name: "One"}, {Name: "Two", Val: lp(Q("the 2nd"))}}}
	case 4:
		return &Struct{Name: "St" + n}
	case 5:
		return &Struct{Name: "St" + n, Fields: []Field{{Name: "id", T: N("uint64")}, {Name: "tags", T: L(N("string")), Opt: true}}}
	case 6:
		return &Struct{Name: "St" + n, Fields: []Field{
			{Name: "a", T: N("Item"), Meta: []Meta{{Key: "json", Val: W("aa")}, {Key: "go.tag.db", Val: W("a_" + n)}}},
			{Name: "b", T: M("Kind", M("string", N("any")))},
			{Name: "c", T: L(L(N("Id"))), Opt: true, Meta: []Meta{{Key: "json", Val: Q("-")}}}}}
	case 7:
		return &Struct{Name: "St" + n, Fields: []Field{{Name: "self", T: L(N("St" + n))}}}
	case 8:
		return &Err{Code: "10" + n, Name: "Err" + n, Msg: Q("it failed: " + n)}
	case 9:
		return &Err{Code: "20" + n, Name: "Bad" + n, Msg: W("oops"), HTTP: "503"}
	case 10:
		return &Svc{Name: "Sv" + n, Methods: []Method{{Name: "Ping"}}}
	case 11:
		return &Svc{Name: "Sv" + n, Methods: []Method{{Name: "Get", In: []Arg{{Name: "id", T: N("Id")}, {Name: "q", T: M("string", N("Item")), Opt: true}}, HasOut: true, Out: []Arg{{Name: "item", T: N("Item")}, {Name: "n", T: N("int"), Opt: true}}}}}
	case 12:
		return &Svc{Name: "Sv" + n, Methods: []Method{{Name: "Get", Succ: "Item", HasOut: true, SuccOut: "Other"}, {Name: "Put", Succ: "Other", HasOut: true, SuccOut: "Item", SOut: true}}}
	case 13:
		return &Svc{Name: "Sv" + n, Methods: []Method{{Name: "Up", SIn: true, In: []Arg{{Name: "x", T: N("bool")}}, HasOut: true, SOut: true, Out: []Arg{{Name: "y", T: L(N("byte"))}}}, {Name: "Down", HasOut: true}}}
	case 14:
		return &Svc{Name: "Sv" + n, Methods: []Method{{Name: "A", Errs: []string{"Base"}}, {Name: "B", HasOut: true, Out: []Arg{{Name: "o", T: N("Kind")}}, Errs: []string{"Basic", "Base"}}, {Name: "C"}}}
	case 15:
		return &Svc{Name: "Sv" + n, Methods: []Method{{Name: "A", Ann: []Ann{{Name: "internal"}, {Name: "acl", Val: lp(W("admin"))}, {Name: "auth", Val: lp(Q("a,b")), NL: true}}}, {Name: "B"}, {Name: "C", Ann: []Ann{{Name: "acl", Val: lp(W("user" + n))}}}}}
	case 16:
		return &Struct{Name: "St" + n, Cm: Cm{Doc: []string{"doc of St" + n, "second line"}, Trail: str("trail")}, Fields: []Field{{Name: "x", T: N("string"), Cm: Cm{Doc: []string{"doc of x"}}}, {Name: "y", T: N("string"), Cm: Cm{Trail: str("trail of y")}}}}
	case 17:
		return &Svc{Name: "Sv" + n, Cm: Cm{Doc: []string{"doc of Sv" + n}}, Methods: []Method{{Name: "M", Cm: Cm{Doc: []string{"doc of M"}, Trail: str("more")}}}}
	case 18:
		return &Head{Key: "basepath", Val: W("/v" + n)}
	case 19:
		return &Alias{Name: "Al" + n, T: N("Item"), Cm: Cm{Doc: []string{"doc of Al" + n}}}
	}
	panic("menu")
}

func support() []any {
	return []any{
		&Alias{Name: "Id", T: N("uint64")},
		&Enum{Name: "Kind", T: "int", Mem: []Member{{Name: "X"}, {Name: "Y"}}},
		&Struct{Name: "Item", Fields: []Field{{Name: "id", T: N("Id")}}},
		&Struct{Name: "Other", Fields: []Field{{Name: "item", T: N("Item")}}},
		&Err{Code: "1", Name: "Base", Msg: Q("base error")},
		&Err{Code: "2", Name: "Basic", Msg: Q("basic error"), HTTP: "404"},
	}
}

// rich is a document with every construct.
func rich() *Doc {
	d := NewDoc()
	d.Add(support()...)
	for k := 0; k < menuSize; k++ {
		d.Add(menu(k, k))
	}
	return d
}

// smallDoc is one construct with what it refers to.
func smallDoc(k int) *Doc {
	d := &Doc{}
	d.Add(&Head{Key: "webrpc", Val: W("v1")}, &Head{Key: "version", Val: W("v1")})
	need := map[string]bool{}
	for _, n := range uses(menu(k, 1)) {
		need[n] = true
	}
	for _, s := range support() {
		if need[name(s)] {
			d.Add(s)
		}
	}
	d.Add(menu(k, 1))
	if k%2 == 0 {
		d.Add(&Struct{Name: "Next", Fields: []Field{{Name: "z", T: N("int")}}})
	}
	return d
}

func name(it any) string {
	switch v := it.(type) {
	case *Err:
		return v.Name
	case *Svc:
		return v.Name
	}
	return typeName(it)
}

// uses lists what a definition refers to, transitively within support().
func uses(it any) []string {
	var out []string
	add := func(t *TE) {
		for _, n := range t.names() {
			if !isCore[n] {
				out = append(out, n)
			}
		}
	}
	switch v := it.(type) {
	case *Alias:
		add(v.T)
	case *Struct:
		for _, f := range v.Fields {
			add(f.T)
		}
	case *Svc:
		for _, m := range v.Methods {
			for _, a := range append(append([]Arg{}, m.In...), m.Out...) {
				add(a.T)
			}
			for _, s := range []string{m.Succ, m.SuccOut} {
				if s != "" {
					out = append(out, s)
				}
			}
			out = append(out, m.Errs...)
		}
	}
	all := out
	for _, n := range out {
		for _, s := range support() {
			if name(s) == n && n != name(it) {
				all = append(all, uses(s)...)
			}
		}
	}
	return all
}

package main

import (
	"fmt"
	"math/bits"
	"strings"

	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P11",
		Rule: "An execution tree-shakes one freshly parsed schema for one list of services and compares the whole schema with the reference, whose types are those reachable over the declared type expressions; a state is a distinct schema reached.",
		Assumptions: []string{
			"names of services are matched exactly; names of no service keep nothing",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p11Structs(w), p11Four(w), p11Kinds(w), p11Uses(w), p11Services(), p11Sizes(w), p11Again(w), p11Nil(), p11Methods(w), p11Near()}
		},
	})
}

// reach is the set of types reachable from the services with these names.
func (d *Doc) reach(services []string) map[string]bool {
	defs := map[string]any{}
	for _, it := range d.Items {
		if n := typeName(it); n != "" {
			defs[n] = it
		}
	}
	keep := map[string]bool{}
	var todo []string
	add := func(t *TE) { todo = append(todo, t.names()...) }
	for _, it := range d.Items {
		v, ok := it.(*Svc)
		if !ok {
			continue
		}
		in := false
		for _, s := range services {
			in = in || s == v.Name
		}
		if !in {
			continue
		}
		for _, m := range v.Methods {
			for _, a := range m.In {
				add(a.T)
			}
			for _, a := range m.Out {
				add(a.T)
			}
			if m.Succ != "" {
				todo = append(todo, m.Succ, m.SuccOut)
			}
		}
	}
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if keep[n] || defs[n] == nil {
			continue
		}
		keep[n] = true
		switch v := defs[n].(type) {
		case *Alias:
			add(v.T)
		case *Struct:
			for _, f := range v.Fields {
				add(f.T)
			}
		}
	}
	return keep
}

// shaken is the document with only the reachable types.
func (d *Doc) shaken(services []string) *Doc {
	c := *d
	c.Keep = d.reach(services)
	return &c
}

func shake(w *engine.W, d *Doc, json bool, services []string) *schema.WebRPCSchema {
	d = around(d)
	s, _ := fresh(w, d, json)
	if s == nil {
		return nil
	}
	arg := append([]string(nil), services...)
	out := schema.MethodTreeShake(s, arg)
	if strings.Join(arg, "\x00") != strings.Join(services, "\x00") {
		w.Fail("argument", "the list of names was changed to %q", arg)
		return nil
	}
	if json {
		d = d.written()
	}
	want, _ := d.shaken(services).Expect()
	if !same10(w, out, want, fmt.Sprintf("MethodTreeShake(%q)", services)) {
		return nil
	}
	return out
}

// edge is the type expression of a reference of one kind.
func edge(kind int, to string) *TE {
	switch kind {
	case 0:
		return N(to)
	case 1:
		return L(N(to))
	case 2:
		return M("string", N(to))
	case 3:
		return L(M("int", L(N(to))))
	case 4:
		return M("string", M("uint8", N(to)))
	}
	panic("edge")
}

const edgeKinds = 5

// p11Structs: all graphs of three structs.
func p11Structs(w *engine.W) *engine.Family {
	return &engine.Family{
		Name: "structs", Bound: fmt.Sprintf("all reference graphs on 3 structs, every set of structs used by the kept and by the other service, references of %d kinds; "+engine.Pick(w, "one of 5 forms of method for each graph and set", "5 forms of methods"), edgeKinds),
		Run: func(x *engine.X, w *engine.W) {
			mask := x.Choose(1 << 9)
			in, out := x.Choose(8), x.Choose(8)
			form := 0
			if w.Thorough() {
				form = x.Choose(5)
			} else {
				form = (mask + in) % 5
			}
			kinds := edgeKinds
			if !w.Thorough() {
				kinds = 2
			}
			kind := x.Choose(kinds)
			if kinds == 2 { // both plain references and a mixture of the others
				kind = []int{0, -1}[kind]
			}
			build := func() *Doc {
				d := NewDoc()
				for i := 0; i < 3; i++ {
					s := &Struct{Name: fmt.Sprintf("S%d", i), Fields: []Field{{Name: "x", T: N("int")}}}
					for j := 0; j < 3; j++ {
						if mask>>(3*i+j)&1 == 1 {
							k := kind
							if k < 0 {
								k = 1 + (i+j)%(edgeKinds-1)
							}
							s.Fields = append(s.Fields, Field{Name: fmt.Sprintf("f%d", j), T: edge(k, fmt.Sprintf("S%d", j)), Opt: j == 1})
						}
					}
					d.Add(s)
				}
				svc := func(name string, uses int) *Svc {
					m := Method{Name: "M", HasOut: true}
					v := &Svc{Name: name}
					switch form {
					case 1: // one method each
						for i := 0; i < 3; i++ {
							if uses>>i&1 == 1 {
								v.Methods = append(v.Methods, Method{Name: fmt.Sprintf("M%d", i), SIn: i == 1, In: []Arg{{Name: "a", T: N(fmt.Sprintf("S%d", i))}}})
							}
						}
						v.Methods = append(v.Methods, m)
						return v
					case 2: // succinct, the first in, the others out
						ins := []string{"S0", "S1", "S2"}
						if uses > 0 {
							m.Succ, m.SuccOut = ins[bits.TrailingZeros(uint(uses))], ins[bits.Len(uint(uses))-1]
							if uses == 7 {
								v.Methods = append(v.Methods, Method{Name: "Mid", Out: []Arg{{Name: "a", T: N("S1")}}, HasOut: true})
							}
						}
						v.Methods = append(v.Methods, m)
						return v
					case 3:
						m.SIn = true
					case 4:
						m.SOut = true
					}
					for i := 0; i < 3; i++ {
						if uses>>i&1 == 1 {
							a := Arg{Name: fmt.Sprintf("a%d", i), T: N(fmt.Sprintf("S%d", i))}
							if i%2 == 0 {
								m.In = append(m.In, a)
							} else {
								m.Out = append(m.Out, a)
							}
						}
					}
					v.Methods = append(v.Methods, m)
					return v
				}
				return d.Add(svc("In", in), svc("Out", out))
			}
			if w.Mine(func() string { return build().RIDL() }) {
				shake(w, build(), true, []string{"In"})
			}
		},
	}
}

// p11Four: all graphs of four structs from one root.
func p11Four(w *engine.W) *engine.Family {
	return &engine.Family{
		Name: "structs-4", Bound: "all reference graphs on 4 structs from one root" + engine.Pick(w, "", ", references of each kind"),
		Run: func(x *engine.X, w *engine.W) {
			mask := x.Choose(1 << 16)
			kind := x.Choose(engine.Pick(w, 1, edgeKinds))
			build := func() *Doc {
				d := NewDoc()
				for i := 0; i < 4; i++ {
					s := &Struct{Name: fmt.Sprintf("S%d", i)}
					for j := 0; j < 4; j++ {
						if mask>>(4*i+j)&1 == 1 {
							s.Fields = append(s.Fields, Field{Name: fmt.Sprintf("f%d", j), T: edge(kind, fmt.Sprintf("S%d", j))})
						}
					}
					d.Add(s)
				}
				return d.Add(&Svc{Name: "In", Methods: []Method{{Name: "M", In: []Arg{{Name: "a", T: N("S0")}}}}})
			}
			if w.Mine(func() string { return build().RIDL() }) {
				shake(w, build(), true, []string{"In"})
			}
		},
	}
}

// p11Kinds: all definitions of three types of any kind.
func p11Kinds(w *engine.W) *engine.Family {
	var es []*TE
	for j := 0; j < 3; j++ {
		n := fmt.Sprintf("T%d", j)
		es = append(es, N(n), L(N(n)), M("string", N(n)), MX(N(n), N("string")), MX(N(n), L(N("T0"))))
		if w.Thorough() {
			es = append(es, L(L(N(n))), M("int", MX(N(n), N("T1"))))
		}
	}
	per := 1 + 2*len(es)
	return &engine.Family{
		Name: "kinds", Bound: fmt.Sprintf("all triples of types, each an enum, or a struct or alias over one of %d expressions, used in 3 ways (those with valid map keys)", len(es)),
		Run: func(x *engine.X, w *engine.W) {
			var c [3]int
			for i := range c {
				c[i] = x.Choose(per)
			}
			use := x.Choose(3)
			build := func() *Doc {
				d := NewDoc()
				for i, k := range c {
					n := fmt.Sprintf("T%d", i)
					switch {
					case k == 0:
						d.Add(&Enum{Name: n, T: "int8", Mem: []Member{{Name: "A"}}})
					case k <= len(es):
						d.Add(&Struct{Name: n, Fields: []Field{{Name: "f", T: es[k-1]}}})
					default:
						d.Add(&Alias{Name: n, T: es[k-1-len(es)]})
					}
				}
				u := []*TE{N("T0"), L(M("string", N("T0"))), MX(N("T0"), L(N("T1")))}[use]
				return d.Add(&Svc{Name: "In", Methods: []Method{{Name: "M", HasOut: true, Out: []Arg{{Name: "a", T: u}}}}})
			}
			d := build()
			if _, ok := d.Expect(); !ok {
				return
			}
			if w.Mine(func() string { return build().RIDL() }) {
				shake(w, d, true, []string{"In"})
			}
		},
	}
}

// p11Lib is a set of types with known references.
func p11Lib() []any {
	return []any{
		&Alias{Name: "Id", T: N("uint64")},
		&Alias{Name: "Ids", T: L(N("Id"))},
		&Alias{Name: "AliasEnum", T: N("Kind")},
		&Alias{Name: "Unused", T: N("string")},
		&Alias{Name: "Deep", T: M("AliasEnum", L(N("Node")))},
		&Enum{Name: "Kind", T: "uint8", Mem: []Member{{Name: "X"}}},
		&Enum{Name: "Lone", T: "string", Mem: []Member{{Name: "Y"}}},
		&Struct{Name: "Leaf", Fields: []Field{{Name: "a", T: N("int")}}},
		&Struct{Name: "Node", Fields: []Field{{Name: "next", T: N("Node"), Opt: true}, {Name: "leaf", T: N("Leaf"), Meta: []Meta{{Key: "json", Val: W("-")}}}}},
		&Struct{Name: "Pair", Fields: []Field{{Name: "l", T: L(N("Right"))}, {Name: "id", T: N("Id")}}},
		&Struct{Name: "Right", Fields: []Field{{Name: "back", T: M("string", N("Pair"))}}},
		&Struct{Name: "Mixed", Fields: []Field{{Name: "d", T: N("Deep")}, {Name: "k", T: M("Lone", N("Ids"))}}},
		&Struct{Name: "Empty"},
	}
}

// p11Uses: each expression at each place of a method.
func p11Uses(w *engine.W) *engine.Family {
	names := []string{"Id", "Ids", "AliasEnum", "Deep", "Kind", "Lone", "Leaf", "Node", "Pair", "Right", "Mixed", "Empty", "string", "bigint"}
	es := exprs(engine.Pick(w, 2, 3), names, []*TE{N("string"), N("Kind"), N("AliasEnum"), N("Lone")})
	const places = 14
	return &engine.Family{
		Name: "uses", Bound: fmt.Sprintf("%d type expressions at each of %d places of the methods of the kept service, RIDL and JSON", len(es), places),
		Run: func(x *engine.X, w *engine.W) {
			t := es[x.Choose(len(es))]
			place := x.Choose(places)
			build := func() *Doc {
				d := NewDoc(p11Lib()...)
				v := &Svc{Name: "In", Methods: []Method{{Name: "A"}, {Name: "B", HasOut: true}, {Name: "C", Errs: []string{"E"}}}}
				o := &Svc{Name: "Other", Methods: []Method{{Name: "A", In: []Arg{{Name: "x", T: N("Unused")}}}}}
				a, b := Arg{Name: "z", T: N("int")}, Arg{Name: "a", T: t}
				ms := v.Methods
				switch place {
				case 0:
					ms[0].In = []Arg{b}
				case 1:
					ms[0].In = []Arg{a, b}
				case 2:
					ms[1].Out = []Arg{b}
				case 3:
					ms[1].Out = []Arg{b, a}
					ms[1].SOut = true
				case 4:
					ms[2].In = []Arg{b}
					ms[2].SIn = true
				case 5:
					ms[2].HasOut, ms[2].Out = true, []Arg{{Name: "o", T: t, Opt: true}}
				case 6: // only the other service
					o.Methods[0].In = append(o.Methods[0].In, b)
				case 7: // both
					o.Methods[0].In = append(o.Methods[0].In, b)
					ms[2].In = []Arg{b}
				case 8: // through a struct, alias and list
					d.Add(&Struct{Name: "Wrap", Fields: []Field{{Name: "w", T: t}}}, &Alias{Name: "Wraps", T: L(N("Wrap"))})
					ms[1].Out = []Arg{{Name: "o", T: N("Wraps")}}
				case 9: // either side of a succinct method
					d.Add(&Struct{Name: "Wrap", Fields: []Field{{Name: "w", T: t}}})
					ms[0].Succ, ms[0].HasOut, ms[0].SuccOut = "Wrap", true, "Bare"
				case 10:
					d.Add(&Struct{Name: "Wrap", Fields: []Field{{Name: "w", T: t}}})
					ms[0].Succ, ms[0].HasOut, ms[0].SuccOut = "Bare", true, "Wrap"
				case 11:
					d.Add(&Struct{Name: "Wrap", Fields: []Field{{Name: "w", T: t}}})
					ms[2].Succ, ms[2].HasOut, ms[2].SuccOut, ms[2].SOut = "Wrap", true, "Wrap", true
				case 12: // streams both ways
					ms[2].SIn, ms[2].In = true, []Arg{{Name: "z", T: N("int"), Opt: true}}
					ms[2].HasOut, ms[2].SOut, ms[2].Out = true, true, []Arg{a, b}
				case 13: // an optional argument, and a proxy
					ms[0].Proxy = true
					ms[2].In = []Arg{{Name: "a", T: t, Opt: true}}
				}
				d.Add(&Struct{Name: "Bare"})
				d.Add(&Err{Code: "1", Name: "E", Msg: Q("e")})
				if place%2 == 0 {
					return d.Add(o, v)
				}
				return d.Add(v, o)
			}
			if w.Mine(func() string { return build().RIDL() }) {
				shake(w, build(), place%3 == 0, []string{"In"})
			}
		},
	}
}

// p11Svcs has services that use different types.
func p11Svcs() *Doc {
	d := NewDoc(p11Lib()...)
	return d.Add(
		&Svc{Name: "A", Methods: []Method{{Name: "M", In: []Arg{{Name: "a", T: N("Ids")}}}, {Name: "N", HasOut: true, Out: []Arg{{Name: "a", T: N("Kind")}}}}},
		&Svc{Name: "B", Methods: []Method{{Name: "M", Succ: "Leaf", HasOut: true, SuccOut: "Node"}}},
		&Svc{Name: "Ab", Methods: []Method{{Name: "M"}, {Name: "N", SIn: true, In: []Arg{{Name: "p", T: L(N("Pair"))}}}, {Name: "O", HasOut: true, Out: []Arg{{Name: "o", T: N("Id")}, {Name: "m", T: M("Lone", N("Empty")), Opt: true}}}}},
	)
}

func p11Services() *engine.Family {
	names := []string{"A", "B", "Ab", "a", "", "Nope"}
	return &engine.Family{
		Name: "services", Bound: fmt.Sprintf("all lists of 0..4 names out of %d, three services, RIDL and JSON", len(names)),
		Run: func(x *engine.X, w *engine.W) {
			var list []string
			for n := x.Choose(5); n > 0; n-- {
				list = append(list, names[x.Choose(len(names))])
			}
			json := x.Bool()
			if w.Mine(func() string { return fmt.Sprintf("%q", list) }) {
				shake(w, p11Svcs(), json, list)
			}
		},
	}
}

func p11Sizes(w *engine.W) *engine.Family {
	n := engine.Pick(w, 60, 300)
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("chains, rings, alternating chains, nestings, fans, unused sets and aliases of aliases of 1..%d types, every entry point of the first 40", n),
		Run: func(x *engine.X, w *engine.W) {
			kind := x.Choose(9)
			k := 1 + x.Choose(n)
			start := x.Choose(min(k, 40))
			build := func() *Doc {
				d := NewDoc()
				nm := func(i int) string { return fmt.Sprintf("T%d", i) }
				use := N(nm(start))
				switch kind {
				case 0, 1: // chain, ring of structs
					for i := 0; i < k; i++ {
						s := &Struct{Name: nm(i)}
						if i+1 < k || kind == 1 {
							s.Fields = []Field{{Name: "next", T: edge(i%edgeKinds, nm((i+1)%k))}}
						}
						d.Add(s)
					}
				case 2: // alternating structs and aliases
					for i := 0; i < k; i++ {
						t := N("string")
						if i > 0 {
							t = edge(i%edgeKinds, nm(i-1))
						}
						if i%2 == 0 {
							d.Add(&Struct{Name: nm(i), Fields: []Field{{Name: "f", T: t}}})
						} else {
							d.Add(&Alias{Name: nm(i), T: t})
						}
					}
				case 3: // nested expression
					for i := 0; i < k; i++ {
						d.Add(&Struct{Name: nm(i)})
					}
					for i := 0; i < k%30; i++ {
						use = N(nm(start))
						for j := 0; j <= i; j++ {
							if j%2 == 0 {
								use = L(use)
							} else {
								use = M("string", use)
							}
						}
					}
				case 4: // fan
					s := &Struct{Name: "Fan"}
					for i := 0; i < k; i++ {
						d.Add(&Enum{Name: nm(i), T: "int", Mem: []Member{{Name: "A"}}})
						if i != start {
							s.Fields = append(s.Fields, Field{Name: fmt.Sprintf("f%d", i), T: M(nm(i), N("int"))})
						}
					}
					d.Add(s)
					use = N("Fan")
				case 5: // many methods, each with its own type
					v := &Svc{Name: "In"}
					for i := 0; i < k; i++ {
						d.Add(&Alias{Name: nm(i), T: N("string")})
						if i != start {
							v.Methods = append(v.Methods, Method{Name: fmt.Sprintf("M%d", i), In: []Arg{{Name: "a", T: N(nm(i))}}})
						}
					}
					if len(v.Methods) == 0 {
						v.Methods = []Method{{Name: "M"}}
					}
					return d.Add(v)
				case 6, 7, 8: // aliases of aliases, aliases of lists and maps among them, structs between them
					for i := 0; i < k; i++ {
						t := N("string")
						if i > 0 {
							t = N(nm(i - 1))
							if kind == 7 {
								t = edge(i%edgeKinds, nm(i-1))
							}
						}
						if kind == 8 && i%3 == 0 {
							d.Add(&Struct{Name: nm(i), Fields: []Field{{Name: "f", T: t}}})
						} else {
							d.Add(&Alias{Name: nm(i), T: t})
						}
					}
				}
				return d.Add(&Svc{Name: "In", Methods: []Method{{Name: "M", In: []Arg{{Name: "a", T: use}}}}})
			}
			if w.Mine(func() string { return build().RIDL() }) {
				shake(w, build(), true, []string{"In"})
			}
		},
	}
}

// p11Again: shaking after and before the other operations.
func p11Again(w *engine.W) *engine.Family {
	lists := [][]string{nil, {"A"}, {"B"}, {"Ab"}, {"A", "B"}, {"A", "Ab"}, {"B", "Ab"}, {"A", "B", "Ab"}}
	return &engine.Family{
		Name: "again", Bound: "all sequences of three operations out of shaking or selecting services for each set of three services",
		Run: func(x *engine.X, w *engine.W) {
			type step struct {
				shake bool
				list  []string
			}
			var st []step
			for i := 0; i < 3; i++ {
				st = append(st, step{x.Bool(), lists[x.Choose(len(lists))]})
			}
			if !w.Mine(func() string { return fmt.Sprintf("%v", st) }) {
				return
			}
			d := p11Svcs()
			s, want := fresh(w, d, true)
			if s == nil {
				return
			}
			for i, e := range st {
				what := fmt.Sprintf("%v", st[:i+1])
				if e.shake {
					s = schema.MethodTreeShake(s, e.list)
					keep := d.reach(e.list)
					for k := range keep {
						if d.Keep != nil && !d.Keep[k] {
							delete(keep, k)
						}
					}
					c := *d
					c.Keep = keep
					d = &c
					svcs := want.Svcs
					want, _ = d.written().Expect()
					want.Svcs = filterNames(want.Svcs, svcs)
				} else {
					o := op{kind: 's', svcs: e.list}
					s, _ = o.real(s)
					want = o.ref(want)
					c := *d
					c.Items = nil
					for _, it := range d.Items {
						if v, ok := it.(*Svc); !ok || len(filterNames([]RSvc{{Name: v.Name}}, want.Svcs)) > 0 {
							c.Items = append(c.Items, it)
						}
					}
					d = &c
				}
				if !same10(w, s, want, what) {
					return
				}
			}
		},
	}
}

func filterNames(all, keep []RSvc) (out []RSvc) {
	for _, a := range all {
		for _, k := range keep {
			if a.Name == k.Name {
				out = append(out, a)
			}
		}
	}
	return
}

func p11Nil() *engine.Family {
	return &engine.Family{
		Name: "nil", Bound: "nil, empty and service-less schemas, with and without names",
		Run: func(x *engine.X, w *engine.W) {
			list := [][]string{nil, {"A"}}[x.Choose(2)]
			kind := x.Choose(3)
			if !w.Mine(func() string { return fmt.Sprint(kind, list) }) {
				return
			}
			switch kind {
			case 0:
				if schema.MethodTreeShake(nil, list) != nil {
					w.Fail("nil", "shaking nil returned a schema")
				}
			case 1:
				shake(w, NewDoc(), true, list)
			case 2:
				shake(w, NewDoc(p11Lib()...), true, list)
			}
		},
	}
}

package main

import (
	"fmt"
	"strings"

	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P30",
		Rule: "An execution parses one document or set of files (or builds one schema), applies a sequence of operations and then visits every definition of the schema, checking each reference by identity and every lookup by a set of names; a state is a distinct schema visited.",
		Assumptions: []string{
			"names that differ in case only in ways that depend on the language or on the Unicode version are not looked up",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p30Docs(w), p30Graphs(w), p30Members(w), p30Ops(w), p30Again(w), p30Lookup(w), p30Far(w), p30Required(w), p30Requireds(w)}
		},
	})
}

// variants are spellings of a name that must find it.
func variants(n string) []string {
	alt := []byte(n)
	for i := range alt {
		if i%2 == 0 {
			alt[i] = strings.ToLower(n[i : i+1])[0]
		} else {
			alt[i] = strings.ToUpper(n[i : i+1])[0]
		}
	}
	out := []string{n, strings.ToLower(n), strings.ToUpper(n)}
	for i := range n {
		if n[i] > 127 {
			return out
		}
	}
	return append(out, string(alt))
}

// near are names that are close to one, but others.
func near(n string) []string {
	out := []string{"", n + "x", n + " ", " " + n, n + n, "x" + n, "[]" + n}
	if len(n) > 1 {
		out = append(out, n[1:], n[:len(n)-1])
	}
	return out
}

// wired visits a schema: every lookup and reference must lead to the very
// definition that is meant.
func wired(w *engine.W, s *schema.WebRPCSchema, what string) bool {
	w.Step(1)
	if s == nil {
		w.Fail("nil", "no schema after %s", what)
		return false
	}
	ok := true
	bad := func(sig, format string, args ...any) {
		if ok {
			w.Fail(sig, "after %s: "+format, append([]any{what}, args...)...)
		}
		ok = false
	}
	types, svcs := map[string]*schema.Type{}, map[string]*schema.Service{}
	for _, t := range s.Types {
		types[strings.ToLower(t.Name)] = t
	}
	for _, v := range s.Services {
		svcs[strings.ToLower(v.Name)] = v
	}
	look := func(n string) {
		if got, want := s.GetTypeByName(n), types[strings.ToLower(n)]; got != want {
			bad("type-lookup", "GetTypeByName(%q) gives %s, but it is %s", n, tname(got), tname(want))
		}
		if got, want := s.GetServiceByName(n), svcs[strings.ToLower(n)]; got != want {
			bad("service-lookup", "GetServiceByName(%q) gives %s, but it is %s", n, vname(got), vname(want))
		}
	}
	var fields, methods, args int
	for _, t := range s.Types {
		for _, n := range variants(t.Name) {
			look(n)
		}
		for _, n := range near(t.Name) {
			look(n)
		}
		required(bad, t)
		fields += len(t.Fields)
	}
	for _, v := range s.Services {
		for _, n := range variants(v.Name) {
			look(n)
		}
		for _, n := range near(v.Name) {
			look(n)
		}
		if v.Schema != s {
			bad("service-schema", "the Schema of service %s is not the schema it is in", v.Name)
		}
		for _, m := range v.Methods {
			methods++
			if m.Service != v {
				bad("method-service", "the Service of method %s.%s is %s", v.Name, m.Name, vname(m.Service))
			}
			for i, a := range m.Inputs {
				if !a.InputArg || a.OutputArg {
					bad("input-flags", "input %d of %s.%s says InputArg=%v OutputArg=%v", i, v.Name, m.Name, a.InputArg, a.OutputArg)
				}
			}
			for i, a := range m.Outputs {
				if a.InputArg || !a.OutputArg {
					bad("output-flags", "output %d of %s.%s says InputArg=%v OutputArg=%v", i, v.Name, m.Name, a.InputArg, a.OutputArg)
				}
			}
			args += len(m.Inputs) + len(m.Outputs)
		}
	}
	w.State(fmt.Sprint(what, len(s.Types), len(s.Services), fields, methods, args))
	return ok
}

func tname(t *schema.Type) string {
	if t == nil {
		return "nothing"
	}
	return t.Kind + " " + t.Name
}

func vname(v *schema.Service) string {
	if v == nil {
		return "nothing"
	}
	return "service " + v.Name
}

// required compares RequiredFields with the fields that aren't optional.
func required(bad func(sig, format string, args ...any), t *schema.Type) {
	before := append([]*schema.TypeField(nil), t.Fields...)
	for round := 0; round < 2; round++ {
		got, i := t.RequiredFields(), 0
		for _, f := range before {
			if f.Optional {
				continue
			}
			if i >= len(got) || got[i] != f {
				bad("required", "RequiredFields of %s doesn't have field %s at place %d", t.Name, f.Name, i)
				return
			}
			i++
		}
		if i != len(got) {
			bad("required", "RequiredFields of %s has %d fields and not %d", t.Name, len(got), i)
			return
		}
		// what the caller does with the result is its own business
		for i := range got {
			got[i] = nil
		}
		_ = append(got, &schema.TypeField{Name: "more"})
		if len(t.Fields) != len(before) {
			bad("required-changes", "RequiredFields changed the fields of %s", t.Name)
			return
		}
		for i := range before {
			if t.Fields[i] != before[i] {
				bad("required-changes", "RequiredFields or the use of its result changed the fields of %s", t.Name)
				return
			}
		}
	}
}

func p30Docs(w *engine.W) *engine.Family {
	k := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "documents", Bound: fmt.Sprintf("all sequences of %d definitions out of %d, from RIDL and JSON", k, menuSize),
		Run: func(x *engine.X, w *engine.W) {
			d := NewDoc(support()...)
			for i := 0; i < k; i++ {
				d.Add(menu(x.Choose(menuSize), i))
			}
			if _, ok := d.Expect(); !ok {
				return
			}
			for _, json := range []bool{false, true} {
				text := func() string {
					if json {
						return d.written().JSON(false)
					}
					return d.RIDL()
				}
				if w.Mine(text) {
					if s, _ := fresh(w, d, json); s != nil {
						wired(w, s, "parsing")
					}
				}
			}
		},
	}
}

// wiredFiles parses a set of files and visits the schema.
func wiredFiles(w *engine.W, f Files, root string) {
	if !w.Mine(func() string { return "root " + root + "\n" + f.String() }) {
		return
	}
	if _, ok, _ := f.Expect(root); !ok {
		return
	}
	s, err := parseFS(f.fs(), root)
	if err != nil {
		w.Fail("rejected", "valid files were rejected: %v", err)
		return
	}
	wired(w, s, "parsing")
}

func p30Graphs(w *engine.W) *engine.Family {
	n := engine.Pick(w, 4, 5)
	return &engine.Family{
		Name: "imports", Bound: fmt.Sprintf("all acyclic import graphs of %d files, imports in every order for 3 files and both ways round for more", n),
		Run: func(x *engine.X, w *engine.W) {
			pick := make([][]int, n)
			for i := range pick {
				all := orderedSubsets(upto(i+1, n, -1))
				if n-i > 3 {
					var two [][]int
					for _, s := range all {
						up, down := true, true
						for j := 1; j < len(s); j++ {
							up, down = up && s[j] > s[j-1], down && s[j] < s[j-1]
						}
						if up || down {
							two = append(two, s)
						}
					}
					all = two
				}
				pick[i] = all[x.Choose(len(all))]
			}
			f := Files{}
			for i := range pick {
				f[fileName(i)] = graphFile(i, pick[i])
			}
			wiredFiles(w, f, fileName(0))
		},
	}
}

func p30Members(*engine.W) *engine.Family {
	return &engine.Family{
		Name: "members", Bound: "every member list over 4 definitions on each of the edges of a chain of 3 files and on two imports of one file",
		Run: func(x *engine.X, w *engine.W) {
			a, b := members(x.Choose(16), p08Names), members(x.Choose(16), p08Names)
			f := Files{"d.ridl": p08Lib()}
			if x.Bool() {
				f["a.ridl"] = NewDoc(&Imp{Path: W("b.ridl"), Members: a}, &Svc{Name: "Mine", Methods: []Method{{Name: "M"}}})
				f["b.ridl"] = NewDoc(&Imp{Path: W("d.ridl"), Members: b}, &Svc{Name: "Theirs", Methods: []Method{{Name: "M"}}})
			} else {
				f["a.ridl"] = NewDoc(&Imp{Path: W("d.ridl"), Members: a}, &Imp{Path: W("d.ridl"), Members: b}, &Svc{Name: "Mine", Methods: []Method{{Name: "M"}}})
			}
			wiredFiles(w, f, "a.ridl")
		},
	}
}

// p30Files is a set of files with services, types and annotations in each.
func p30Files() Files {
	r := p10Rich()
	f := Files{"a.ridl": r, "b.ridl": graphFile(1, []int{2}), "c.ridl": graphFile(2, nil)}
	for _, n := range []string{"b.ridl", "c.ridl"} {
		for _, it := range f[n].Items {
			if e, ok := it.(*Err); ok {
				e.Code = "90" + e.Code
			}
		}
	}
	r.Items = append(append(append([]any{}, r.Items[:3]...), &Imp{Path: W("b.ridl")}, &Imp{Path: W("c.ridl")}), r.Items[3:]...)
	return f
}

func p30Ops(w *engine.W) *engine.Family {
	n := engine.Pick(w, 3, 4)
	ops := p10Alphabet()
	type step struct {
		name string
		do   func(s *schema.WebRPCSchema) *schema.WebRPCSchema
	}
	steps := []step{
		{"Validate", func(s *schema.WebRPCSchema) *schema.WebRPCSchema { s.Validate(); return s }},
		{"SchemaHash", func(s *schema.WebRPCSchema) *schema.WebRPCSchema { s.SchemaHash(); return s }},
		{"the BigInt analysis", func(s *schema.WebRPCSchema) *schema.WebRPCSchema {
			schema.SchemaUsesBigInts(s)
			schema.SchemaBigIntFieldsByType(s)
			return s
		}},
	}
	for _, l := range [][]string{{"Ping"}, {"Pang", "SvB"}, {"SvC", "Sv12"}, {"Nope"}} {
		steps = append(steps, step{fmt.Sprintf("MethodTreeShake(%q)", l), func(s *schema.WebRPCSchema) *schema.WebRPCSchema { return schema.MethodTreeShake(s, l) }})
	}
	for _, o := range ops {
		steps = append(steps, step{o.String(), func(s *schema.WebRPCSchema) *schema.WebRPCSchema { s, _ = o.real(s); return s }})
	}
	files := p30Files().fs()
	return &engine.Family{
		Name: "operations", Bound: fmt.Sprintf("all sequences of %d operations out of %d on a schema of three files with every construct, parsed or read back from JSON, with a visit before each", n, len(steps)),
		Run: func(x *engine.X, w *engine.W) {
			var seq []step
			var names []string
			for i := 0; i < n; i++ {
				seq = append(seq, steps[x.Choose(len(steps))])
				names = append(names, seq[i].name)
			}
			if !w.Mine(func() string { return strings.Join(names, ", ") }) {
				return
			}
			s, err := parseFS(files, "a.ridl")
			if err == nil && len(names[0])%2 == 0 {
				var text string
				if text, err = s.ToJSON(); err == nil {
					s, err = schema.ParseSchemaJSON([]byte(text))
				}
			}
			if err != nil {
				w.Fail("rejected", "valid files were rejected: %v", err)
				return
			}
			for i, st := range seq {
				if s = st.do(s); !wired(w, s, strings.Join(names[:i+1], ", ")) {
					return
				}
			}
		},
	}
}

// p30Again: schemas that come of one parser, or of several on the same files,
// stay apart.
func p30Again(w *engine.W) *engine.Family {
	n := engine.Pick(w, 4, 5)
	files := p30Files().fs()
	return &engine.Family{
		Name: "again", Bound: fmt.Sprintf("all sequences of %d parses of 3 roots that import each other by 2 parsers each, every schema visited at the end", n),
		Run: func(x *engine.X, w *engine.W) {
			pick := make([]int, n)
			for i := range pick {
				pick[i] = x.Choose(6)
			}
			if !w.Mine(func() string { return fmt.Sprint("parses ", pick) }) {
				return
			}
			var ps [6]*ridl.Parser
			for i := range ps {
				ps[i] = ridl.NewParser(files, "/", fileName(i%3))
			}
			var got []*schema.WebRPCSchema
			for _, p := range pick {
				s, err := ps[p].Parse()
				if err != nil {
					w.Fail("rejected", "valid files were rejected: %v", err)
					return
				}
				got = append(got, s)
			}
			for i, s := range got {
				if !wired(w, s, fmt.Sprintf("parse %d of %v", i, pick)) {
					return
				}
			}
		},
	}
}

// p30Lookup: sets of names that are nearly each other.
func p30Lookup(w *engine.W) *engine.Family {
	names := []string{"A", "Ab", "AB1", "Abc", "A_b", "Ba", "B", "Z9", "String", "Map", "Ée", "É", "Ωb", "Я", "Aé", "Struct", "Service"}
	k := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "lookups", Bound: fmt.Sprintf("all sequences of %d names out of %d, each of a type, a service or both, in a schema read from JSON; every other name is looked up too", k, len(names)),
		Run: func(x *engine.X, w *engine.W) {
			d := NewDoc()
			seen := map[string]bool{}
			for i := 0; i < k; i++ {
				n := names[x.Choose(len(names))]
				kind := x.Choose(3)
				if seen[strings.ToLower(n)] {
					return
				}
				seen[strings.ToLower(n)] = true
				if kind != 1 {
					d.Add(&Struct{Name: n})
				}
				if kind != 0 {
					d.Add(&Svc{Name: n, Methods: []Method{{Name: "M"}}})
				}
			}
			if !w.Mine(func() string { return d.JSON(false) }) {
				return
			}
			s, err := parseJSON(d.JSON(false))
			if err != nil {
				w.Fail("rejected", "a valid schema was rejected: %v", err)
				return
			}
			if !wired(w, s, "parsing") {
				return
			}
			for _, n := range names {
				var t *schema.Type
				var v *schema.Service
				for _, c := range s.Types {
					if c.Name == n {
						t = c
					}
				}
				for _, c := range s.Services {
					if c.Name == n {
						v = c
					}
				}
				for _, q := range variants(n) {
					if got := s.GetTypeByName(q); got != t {
						w.Fail("type-lookup", "GetTypeByName(%q) gives %s, but it is %s", q, tname(got), tname(t))
					}
					if got := s.GetServiceByName(q); got != v {
						w.Fail("service-lookup", "GetServiceByName(%q) gives %s, but it is %s", q, vname(got), vname(v))
					}
				}
			}
		},
	}
}

// p30Far: many definitions.
func p30Far(w *engine.W) *engine.Family {
	max := engine.Pick(w, 300, 1100)
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("every number up to 70 and around powers of two up to %d of types, services, methods of a service and arguments of a method", max),
		Run: func(x *engine.X, w *engine.W) {
			n := 1 + x.Choose(max)
			kind := x.Choose(4)
			if n > 70 && n&(n-1) != 0 && n&(n+1) != 0 && (n-1)&(n-2) != 0 {
				return
			}
			if !w.Mine(func() string { return fmt.Sprint("sizes ", n, " of kind ", kind) }) {
				return
			}
			d := NewDoc()
			switch kind {
			case 0:
				for i := 0; i < n; i++ {
					d.Add(&Struct{Name: fmt.Sprintf("T%d", i), Fields: []Field{{Name: "a", T: N("int"), Opt: i%3 == 0}, {Name: "b", T: N("int"), Opt: i%2 == 0}}})
				}
			case 1:
				for i := 0; i < n; i++ {
					d.Add(&Svc{Name: fmt.Sprintf("S%d", i), Methods: []Method{{Name: "M"}}})
				}
			case 2:
				v := &Svc{Name: "Sv"}
				for i := 0; i < n; i++ {
					v.Methods = append(v.Methods, Method{Name: fmt.Sprintf("M%d", i), In: []Arg{{Name: "a", T: N("int")}}})
				}
				d.Add(v)
			case 3:
				m := Method{Name: "M", HasOut: true}
				for i := 0; i < n; i++ {
					m.In = append(m.In, Arg{Name: fmt.Sprintf("a%d", i), T: N("int"), Opt: i%2 == 0})
					m.Out = append(m.Out, Arg{Name: fmt.Sprintf("b%d", i), T: N("int"), Opt: i%2 == 1})
				}
				d.Add(&Svc{Name: "Sv", Methods: []Method{m}})
			}
			if s, _ := fresh(w, d, n%2 == 0); s != nil {
				wired(w, s, "parsing")
			}
		},
	}
}

// p30Required: which of the fields are optional, whatever their types.
func p30Required(w *engine.W) *engine.Family {
	ts := []*TE{N("int"), N("any"), N("Id"), N("Kind"), N("Item"), L(N("byte")), M("Kind", N("null")), N("St")}
	k := engine.Pick(w, 4, 5)
	return &engine.Family{
		Name: "required", Bound: fmt.Sprintf("all sequences of up to %d fields of %d types, optional or not", k, len(ts)),
		Run: func(x *engine.X, w *engine.W) {
			st := &Struct{Name: "St"}
			for i, n := 0, x.Choose(k+1); i < n; i++ {
				st.Fields = append(st.Fields, Field{Name: string(rune('a' + i)), T: ts[x.Choose(len(ts))], Opt: x.Bool()})
			}
			d := NewDoc(support()...).Add(st)
			if !w.Mine(func() string { return d.RIDL() }) {
				return
			}
			if s, _ := fresh(w, d, len(st.Fields)%2 == 0); s != nil {
				wired(w, s, "parsing")
			}
		},
	}
}

func p30Requireds(w *engine.W) *engine.Family {
	k := engine.Pick(w, 12, 15)
	return &engine.Family{
		Name: "required-sets", Bound: fmt.Sprintf("all sets of optional fields of up to %d, with JSON names and comments on some", k),
		Run: func(x *engine.X, w *engine.W) {
			st := &Struct{Name: "St"}
			for i, n := 0, x.Choose(k+1); i < n; i++ {
				f := Field{Name: string(rune('a' + i)), T: N("int"), Opt: x.Bool()}
				if i%3 == 1 {
					f.Meta = []Meta{{Key: "json", Val: Q([]string{"-", "x" + f.Name}[i%2])}}
				}
				if i%4 == 2 {
					f.Cm = Cm{Doc: []string{"doc"}}
				}
				st.Fields = append(st.Fields, f)
			}
			d := NewDoc(st)
			if !w.Mine(func() string { return d.RIDL() }) {
				return
			}
			if s, _ := fresh(w, d, len(st.Fields)%2 == 1); s != nil {
				wired(w, s, "parsing")
			}
		},
	}
}

package main

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"

	"github.com/golang-cz/textcase"
	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P20",
		Rule: "An execution runs one template through gen.Generate: a call of one template function with one tuple of arguments, a sequence of calls on shared values, or all predicates and accessors on one type expression. The value that the template gets and the arguments afterwards are compared with a reference. A state is a distinct outcome.",
		Assumptions: []string{
			"the generators that the sandbox lacks (gen-golang, gen-typescript) and gitfs are stand-ins; the helpers do not involve them",
			"emptiness for default and coalesce is claimed for nil, strings, numbers and booleans",
			"camelCase, pascalCase, snakeCase and kebabCase are held against the textcase library, which defines them",
		},
		Families: func(w *engine.W) []*engine.Family {
			fams := []*engine.Family{p20Types(w), p20Versions(w), p20BigVersions(), p20Deep(w), p20Lists(w), p20Dicts(w), p20Contexts(w)}
			return append(fams, p20Calls(w)...)
		},
	})
}

// show prints a value with its dynamic type.
func show(v any) string {
	switch t := v.(type) {
	case []any:
		out := "[]any{"
		for _, e := range t {
			out += show(e) + ", "
		}
		return out + "}"
	case map[string]any:
		out := "map{"
		for _, k := range keys(t) {
			out += fmt.Sprintf("%q: %s, ", k, show(t[k]))
		}
		return out + "}"
	case *schema.VarType:
		return "type " + t.String()
	case schema.VarType:
		return "typeval " + t.String()
	case *schema.Type:
		return "decl " + t.Kind + " " + t.Name
	}
	return fmt.Sprintf("%T(%#v)", v, v)
}

func keys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// full shows a value with the elements between length and capacity too.
func full(v any) string {
	switch t := v.(type) {
	case []any:
		return fmt.Sprint(len(t)) + show(t[:cap(t)])
	case []string:
		return fmt.Sprint(len(t)) + show(t[:cap(t)])
	}
	return show(v)
}

// ---- types ----

type p20Case struct {
	te   *TE
	kind string
}

func p20Types(w *engine.W) *engine.Family {
	depth := engine.Pick(w, 3, 4)
	leaves := []p20Case{}
	for _, c := range []string{"null", "any", "byte", "bool", "uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64", "bigint", "float32", "float64", "string", "timestamp"} {
		leaves = append(leaves, p20Case{N(c), "Core"})
	}
	for _, s := range []string{"St", "Map", "Mapping", "Struct", "String", "Enum", "List"} {
		leaves = append(leaves, p20Case{N(s), "Struct"})
	}
	for _, s := range []string{"En", "EnS", "Alias1"} {
		leaves = append(leaves, p20Case{N(s), "Enum"})
	}
	for _, s := range []string{"AlStr", "AlInt", "AlEn", "AlSt", "AlList", "AlMap", "AlAl", "Core"} {
		leaves = append(leaves, p20Case{N(s), "Alias"})
	}
	keysOf := []string{"string", "int", "uint64", "En", "EnS", "AlEn"}
	few := []p20Case{{N("string"), "Core"}, {N("St"), "Struct"}, {N("En"), "Enum"}, {N("AlEn"), "Alias"}}
	var at func(x *engine.X, d int) p20Case
	at = func(x *engine.X, d int) p20Case {
		set := leaves
		if d < depth-1 {
			set = few
		}
		n := len(set)
		if d == 0 {
			return set[x.Choose(n)]
		}
		k := x.Choose(n + 1 + len(keysOf))
		switch {
		case k < n:
			return set[k]
		case k == n:
			return p20Case{L(at(x, d-1).te), "List"}
		}
		return p20Case{M(keysOf[k-n-1], at(x, d-1).te), "Map"}
	}
	places := p20Places
	return &engine.Family{
		Name: "types", Bound: fmt.Sprintf("every type expression of up to %d levels, in every place where a type is used, with all predicates and accessors", depth+1),
		Run: func(x *engine.X, w *engine.W) {
			c := at(x, depth)
			place := places[x.Choose(len(places))]
			p20Type(w, c, place)
		},
	}
}

var p20Places = []string{"field", "optional field", "argument", "result", "alias", "list element", "value", "text"}

// p20Deep: types much deeper than the others.
func p20Deep(w *engine.W) *engine.Family {
	max := engine.Pick(w, 24, 80)
	leaves := []p20Case{{N("string"), "Core"}, {N("St"), "Struct"}, {N("EnS"), "Enum"}, {N("AlEn"), "Alias"}, {N("Map"), "Struct"}}
	pats := []string{"l", "m", "lm", "ml", "mml", "llm", "n", "nm", "lln"}
	return &engine.Family{
		Name: "deep types", Bound: fmt.Sprintf("lists and maps nested 1..%d times in %d patterns over %d types, in every place where a type is used", max, len(pats), len(leaves)),
		Run: func(x *engine.X, w *engine.W) {
			n := 1 + x.Choose(max)
			p := pats[x.Choose(len(pats))]
			c := leaves[x.Choose(len(leaves))]
			place := p20Places[x.Choose(len(p20Places))]
			for k := 0; k < n; k++ {
				switch p[k%len(p)] {
				case 'l':
					c = p20Case{L(c.te), "List"}
				case 'm':
					c = p20Case{M("string", c.te), "Map"}
				case 'n':
					c = p20Case{M([]string{"En", "uint64", "AlEn"}[k%3], c.te), "Map"}
				}
			}
			p20Type(w, c, place)
		},
	}
}

// p20Type asks everything about a type in one place.
func p20Type(w *engine.W, c p20Case, place string) {
	doc := func() *Doc {
		d := NewDoc(&Struct{Name: "St", Fields: []Field{{Name: "a", T: N("string")}}})
		for _, s := range []string{"Map", "Mapping", "Struct", "String", "Enum", "List"} {
			d.Add(&Struct{Name: s})
		}
		for _, s := range []string{"En", "EnS", "Alias1"} {
			under := "uint8"
			if s == "EnS" {
				under = "string"
			}
			d.Add(&Enum{Name: s, T: under, Mem: []Member{{Name: "A"}, {Name: "B"}}})
		}
		d.Add(&Alias{Name: "AlStr", T: N("string")}, &Alias{Name: "AlInt", T: N("int")}, &Alias{Name: "AlEn", T: N("En")}, &Alias{Name: "AlSt", T: N("St")},
			&Alias{Name: "AlList", T: L(N("En"))}, &Alias{Name: "AlMap", T: M("string", N("St"))}, &Alias{Name: "AlAl", T: N("AlStr")}, &Alias{Name: "Core", T: N("bool")})
		f := Field{Name: "x", T: c.te, Opt: place == "optional field"}
		d.Add(&Struct{Name: "Holder", Fields: []Field{f, {Name: "l", T: L(c.te)}}}, &Alias{Name: "Named", T: c.te})
		return d.Add(&Svc{Name: "Svc", Methods: []Method{{Name: "Me", In: []Arg{{Name: "i", T: c.te}}, Out: []Arg{{Name: "o", T: c.te}}, HasOut: true}}})
	}
	if !w.Mine(func() string { return place + " " + c.te.Expr() }) {
		return
	}
	s, err := parseText(doc().RIDL())
	if err != nil {
		w.Fail("setup", "schema with type %s does not parse: %v", c.te.Expr(), err)
		return
	}
	var v any
	for _, t := range s.Types {
		switch {
		case t.Name == "Holder" && (place == "field" || place == "optional field"):
			v = t.Fields[0].Type
		case t.Name == "Holder" && place == "list element":
			v = t.Fields[1].Type.List.Elem
		case t.Name == "Holder" && place == "value":
			v = *t.Fields[0].Type
		case t.Name == "Named" && place == "alias":
			v = t.Type
		}
	}
	switch place {
	case "argument":
		v = s.Services[0].Methods[0].Inputs[0].Type
	case "result":
		v = s.Services[0].Methods[0].Outputs[0].Type
	case "text":
		v = c.te.Expr()
	}
	kind := c.kind
	if _, ok := v.(string); ok && (kind == "Struct" || kind == "Enum" || kind == "Alias") {
		kind = "" // text does not say what a name stands for
	}
	want := []string{}
	for _, k := range []string{"Core", "Basic", "Struct", "Enum", "Alias", "List", "Map"} {
		want = append(want, fmt.Sprintf("%s=%v", k, k == kind || k == "Basic" && kind == "Core"))
	}
	want = append(want, "text="+c.te.Expr())
	body := `{{range .Opts.v}}Core={{isCoreType .}} Basic={{isBasicType .}} Struct={{isStructType .}} Enum={{isEnumType .}} Alias={{isAliasType .}} List={{isListType .}} Map={{isMapType .}} text={{join (array .) ""}}`
	switch kind {
	case "List":
		want = append(want, "elem="+c.te.Elem.Expr())
		body += ` elem={{listElemType .}}`
	case "Map":
		want = append(want, "key="+c.te.Key.Expr(), "value="+c.te.Elem.Expr())
		body += ` key={{mapKeyType .}} value={{mapValueType .}}`
	}
	got, err := eval(w, s, body+`{{end}}`, map[string]any{"v": []any{v}})
	if err != nil {
		w.Fail("error", "%s %s: %v", place, c.te.Expr(), err)
		return
	}
	w.State(kind + place)
	if exp := strings.Join(want, " "); got != exp {
		w.Fail("predicate", "%s %s as %T: got %s, expected %s", place, c.te.Expr(), v, got, exp)
	}
	// accessors refuse everything else
	for _, f := range []struct{ name, kind string }{{"listElemType", "List"}, {"mapKeyType", "Map"}, {"mapValueType", "Map"}} {
		if f.kind != kind {
			if got, err := call(w, f.name, []any{v}); err == nil {
				w.Fail("accessor", "%s of %s %s gives %s instead of an error", f.name, place, c.te.Expr(), show(got))
			}
		}
	}
	// declarations
	if place == "field" {
		for _, t := range s.Types {
			body := `{{range .Opts.v}}core={{isCoreType .}} struct={{isStructType .}} enum={{isEnumType .}} alias={{isAliasType .}} list={{isListType .}} map={{isMapType .}}{{end}}`
			got, err := eval(w, s, body, map[string]any{"v": []any{t}})
			exp := fmt.Sprintf("core=false struct=%v enum=%v alias=%v list=false map=false", t.Kind == "struct", t.Kind == "enum", t.Kind == "alias")
			if err != nil || got != exp {
				w.Fail("declaration", "%s %s: got %s (%v), expected %s", t.Kind, t.Name, got, err, exp)
			}
		}
	}
}

// ---- versions ----

func p20Versions(w *engine.W) *engine.Family {
	nums := engine.Pick(w, []string{"0", "1", "2", "9", "10", "11"}, []string{"0", "1", "2", "3", "9", "10", "11", "19", "20", "99", "100"})
	return p20VersionPairs("versions", nums, []string{"", ".0", ".1", ".10", ".0-dev", ".x", ".1.2"}, []string{"v", ""})
}

func p20BigVersions() *engine.Family {
	nums := []string{"0", "1", "9", "10", "99", "100", "101", "127", "128", "255", "256", "999", "1000", "1001", "9999", "10000", "65535", "65536", "99999", "1000000", "2147483647", "4294967296"}
	return p20VersionPairs("large versions", nums, []string{".0"}, []string{"v"})
}

func p20VersionPairs(name string, nums, tails, vees []string) *engine.Family {
	type ver struct {
		s            string
		major, minor int
		ok           bool
	}
	num := func(s string) (n int) { fmt.Sscan(s, &n); return }
	var vs []ver
	for _, v := range vees {
		for _, a := range nums {
			vs = append(vs, ver{v + a, num(a), 0, true})
			for _, b := range nums {
				for _, t := range tails {
					vs = append(vs, ver{v + a + "." + b + t, num(a), num(b), true})
				}
			}
		}
	}
	for _, s := range []string{"", "v", "x", "v.1", ".", "vv1", "v1.", "v1.x", "v1.2-dev", "v1-dev", "1 ", " v1", "v1,2", "V1"} {
		vs = append(vs, ver{s: s})
	}
	chunk := 64
	return &engine.Family{
		Name: name, Bound: fmt.Sprintf("minVersion on all pairs of %d versions: %q before, major and minor of %v, followed by nothing or %q, and malformed ones", len(vs), vees, nums, tails),
		Run: func(x *engine.X, w *engine.W) {
			a := vs[x.Choose(len(vs))]
			from := x.Choose((len(vs)+chunk-1)/chunk) * chunk
			if !w.Mine(func() string { return fmt.Sprintf("%q against %d..", a.s, from) }) {
				return
			}
			var list []ver
			var list2 []any
			want := ""
			for _, b := range vs[from:min(from+chunk, len(vs))] {
				if !a.ok || !b.ok {
					if from%(chunk*8) == 0 || !b.ok {
						if got, err := call(w, "minVersion", []any{a.s, b.s}); err == nil {
							w.Fail("malformed", "minVersion %q %q is %v instead of an error", a.s, b.s, got)
						}
					}
					continue
				}
				list = append(list, b)
				list2 = append(list2, b.s)
				want += fmt.Sprintf("%v ", a.major > b.major || a.major == b.major && a.minor >= b.minor)
			}
			if len(list) == 0 {
				return
			}
			w.Step(len(list))
			got, err := eval(w, nil, `{{range .Opts.l}}{{minVersion $.Opts.a .}} {{end}}`, map[string]any{"a": a.s, "l": list2})
			if err != nil || got != want {
				w.Fail("order", "minVersion %q against %v: got %s (%v), expected %s", a.s, list2, got, err, want)
			}
			w.State(want)
		},
	}
}

// ---- histories of list operations ----

func p20Lists(w *engine.W) *engine.Family {
	depth := engine.Pick(w, 4, 5)
	starts := engine.Pick(w, []int{0, 1, 3}, []int{0, 1, 3, 4, 5})
	ops := []string{"append0", "append1", "append2", "sort", "array", "first", "last", "join", "lastIndex", "in"}
	fewer := []string{"append1", "append2", "sort", "array", "last"}
	body := `{{$d := .}}{{range .steps}}{{$s := call $d.get .src}}` +
		`{{if eq .op "append0"}}{{call $d.put (append $s)}}` +
		`{{else if eq .op "append1"}}{{call $d.put (append $s .x)}}` +
		`{{else if eq .op "append2"}}{{call $d.put (append $s .x "zz")}}` +
		`{{else if eq .op "sort"}}{{call $d.put (sort $s)}}` +
		`{{else if eq .op "array"}}{{call $d.put (array $s .x)}}` +
		`{{else if eq .op "first"}}{{call $d.put (array (first $s))}}` +
		`{{else if eq .op "last"}}{{call $d.put (array (last $s))}}` +
		`{{else if eq .op "join"}}{{call $d.put (array (join $s "+"))}}` +
		`{{else if eq .op "lastIndex"}}{{call $d.put (array (printf "%d" (lastIndex $s)))}}` +
		`{{else if eq .op "in"}}{{call $d.put (array (ternary (in .x "x1" "zz") "yes" "no"))}}{{end}}{{end}}`
	return &engine.Family{
		Name: "lists", Bound: fmt.Sprintf("all sequences of up to 3 of %v, and up to %d of %v, each on any list made so far, from lists of %v elements with and without room to grow", ops, depth, fewer, starts),
		Run: func(x *engine.X, w *engine.W) {
			n := starts[x.Choose(len(starts))]
			room := x.Bool()
			d := 1 + x.Choose(depth)
			model := [][]any{nil}
			for i := 0; i < n; i++ {
				model[0] = append(model[0], fmt.Sprintf("e%d", (i*3)%5))
			}
			var steps []any
			var desc []string
			fails := false
			for i := 0; i < d; i++ {
				set := ops
				if d > 3 {
					set = fewer
				}
				op := set[x.Choose(len(set))]
				src := x.Choose(len(model))
				item := fmt.Sprintf("x%d", i)
				cur := model[src]
				copyOf := func(extra ...any) []any { return append(append([]any{}, cur...), extra...) }
				flat := true
				for _, e := range cur {
					_, ok := e.(string)
					flat = flat && ok
				}
				var out []any
				switch op {
				case "append0":
					out = copyOf()
				case "append1":
					out = copyOf(item)
				case "append2":
					out = copyOf(item, "zz")
				case "sort":
					if fails = !flat && len(cur) > 1; fails {
						break
					}
					out = copyOf()
					for i := 1; i < len(out); i++ {
						for j := i; j > 0 && out[j].(string) < out[j-1].(string); j-- {
							out[j], out[j-1] = out[j-1], out[j]
						}
					}
				case "array":
					out = []any{cur, item}
				case "first", "last":
					if fails = len(cur) == 0; fails {
						break
					}
					out = []any{cur[0]}
					if op == "last" {
						out = []any{cur[len(cur)-1]}
					}
				case "join":
					if fails = !flat; fails {
						break
					}
					out = []any{strings.Join(strs(cur), "+")}
				case "lastIndex":
					out = []any{fmt.Sprint(len(cur) - 1)}
				case "in":
					out = []any{map[bool]string{true: "yes", false: "no"}[item == "x1"]}
				}
				model = append(model, out)
				steps = append(steps, map[string]any{"op": op, "src": src, "x": item})
				desc = append(desc, fmt.Sprintf("l%d=%s l%d %s", len(model)-1, op, src, item))
				if fails && i != d-1 {
					return // the sequence up to here is explored at its own length
				}
			}
			if !w.Mine(func() string { return fmt.Sprintf("%d room %v: %s", n, room, strings.Join(desc, "; ")) }) {
				return
			}
			vars := [][]any{append(make([]any, 0, n+map[bool]int{true: 4}[room]), model[0]...)}
			err := one(w, body, map[string]any{"steps": steps,
				"get": func(i int) []any { return vars[i] },
				"put": func(v []any) string { vars = append(vars, v); return "" }})
			w.Step(len(steps))
			if fails {
				w.State("error")
				if err == nil {
					w.Fail("no-error", "%s: no error", strings.Join(desc, "; "))
				}
				return
			}
			if err != nil {
				w.Fail("error", "%s: %v", strings.Join(desc, "; "), err)
				return
			}
			if len(vars) != len(model) {
				w.Fail("steps", "%s: %d lists made, expected %d", strings.Join(desc, "; "), len(vars), len(model))
				return
			}
			for i, m := range model {
				if got, want := show(vars[i]), show(m); got != want {
					w.Fail("contents", "%d elements, room %v: after %s, l%d is %s, expected %s", n, room, strings.Join(desc, "; "), i, got, want)
					return
				}
			}
			w.State(fmt.Sprint(model))
		},
	}
}

// ---- histories of dictionary operations ----

func p20Dicts(w *engine.W) *engine.Family {
	depth := engine.Pick(w, 3, 4)
	ops := []string{"set", "get", "exists", "dict"}
	names := []string{"a", "b", ""}
	vals := []any{"1", nil, 2}
	body := `{{$c := .}}{{range .steps}}{{$d := call $c.at .d}}` +
		`{{if eq .op "set"}}{{call $c.see (set $d .k .v)}}{{else if eq .op "get"}}{{call $c.see (get $d .k)}}` +
		`{{else if eq .op "exists"}}{{call $c.see (exists $d .k)}}` +
		`{{else if eq .op "dict"}}{{call $c.put (dict .k .v "c" $d.a)}}{{end}}{{end}}`
	return &engine.Family{
		Name: "dictionaries", Bound: fmt.Sprintf("all sequences of up to %d dictionary operations over %d keys and %d values on the dictionaries made so far", depth, len(names), len(vals)),
		Run: func(x *engine.X, w *engine.W) {
			d := 1 + x.Choose(depth)
			model := []map[string]any{{"a": "0"}, {}}
			var steps []any
			var desc []string
			want, got := "", ""
			fails := false
			for i := 0; i < d; i++ {
				op := ops[x.Choose(len(ops))]
				at := x.Choose(len(model))
				k := names[x.Choose(len(names))]
				var v any
				switch op {
				case "set":
					v = vals[x.Choose(len(vals))]
					model[at][k] = v
					want += show("")
				case "get":
					val, ok := model[at][k]
					if fails = !ok; fails && i != d-1 {
						return
					}
					want += show(val)
				case "exists":
					_, ok := model[at][k]
					want += show(ok)
				case "dict":
					v = vals[x.Choose(len(vals))]
					model = append(model, map[string]any{k: v, "c": model[at]["a"]})
				}
				steps = append(steps, map[string]any{"op": op, "d": at, "k": k, "v": v})
				desc = append(desc, fmt.Sprintf("%s d%d %q %v", op, at, k, v))
			}
			if !w.Mine(func() string { return strings.Join(desc, "; ") }) {
				return
			}
			dicts := []map[string]any{{"a": "0"}, {}}
			err := one(w, body, map[string]any{"steps": steps,
				"at":  func(i int) map[string]any { return dicts[i] },
				"put": func(m map[string]any) string { dicts = append(dicts, m); return "" },
				"see": func(v any) string { got += show(v); return "" }})
			w.Step(len(steps))
			if fails != (err != nil) {
				w.Fail("error", "%s: error %v, expected one: %v", strings.Join(desc, "; "), err, fails)
				return
			}
			if fails {
				return
			}
			if got != want {
				w.Fail("answers", "%s: got %s, expected %s", strings.Join(desc, "; "), got, want)
			}
			for i := range model {
				if i >= len(dicts) || show(dicts[i]) != show(model[i]) {
					w.Fail("contents", "%s: d%d is %s, expected %s", strings.Join(desc, "; "), i, show(dicts[i]), show(model[i]))
					return
				}
			}
			w.State(want)
		},
	}
}

// ---- single calls ----

// helper is one template function: its arguments and what it must return.
type helper struct {
	name, bound string
	args        func(x *engine.X, w *engine.W) []any
	want        func(a []any) (any, bool)
}

var p20Types4 = []any{
	&schema.VarType{Expr: "map<string,[]St>", Type: schema.T_Map},
	schema.VarType{Expr: "bool", Type: schema.T_Bool},
	&schema.Type{Kind: "struct", Name: "St"},
}

func word(x *engine.X, alphabet []string, max int) string {
	n := x.Choose(max + 1)
	out := ""
	for i := 0; i < n; i++ {
		out += alphabet[x.Choose(len(alphabet))]
	}
	return out
}

func some(x *engine.X, alphabet []any, min, max int) []any {
	n := min + x.Choose(max-min+1)
	out := make([]any, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, alphabet[x.Choose(len(alphabet))])
	}
	return out
}

func textOf(v any) (string, bool) {
	switch t := v.(type) {
	case string:
		return t, true
	case *schema.VarType:
		return t.Expr, true
	case schema.VarType:
		return t.Expr, true
	case *schema.Type:
		return t.Kind, true
	case map[string]any:
		out := ""
		for _, k := range keys(t) {
			out += fmt.Sprintf("%v=%v\n", k, t[k])
		}
		return out, true
	}
	return "", false
}

func empty(v any) bool { return v == nil || v == "" || v == 0 || v == false || v == 0.0 }

func strs(vs []any) []string {
	out := []string{}
	for _, v := range vs {
		out = append(out, v.(string))
	}
	return out
}

func same(a, b any) bool { return show(a) == show(b) }

func runeMap(s string, f func(int, rune) rune) string {
	out := []rune{}
	for i, r := range []rune(s) {
		out = append(out, f(i, r))
	}
	return string(out)
}

// firstWord is the length of the first word: capitals, then small letters and
// digits; a run of capitals leaves its last one to a following word of at least
// two small letters.
func firstWord(s string) int {
	up := func(i int) bool { return i < len(s) && s[i] >= 'A' && s[i] <= 'Z' }
	low := func(i int) bool { return i < len(s) && s[i] >= 'a' && s[i] <= 'z' }
	dig := func(i int) bool { return i < len(s) && s[i] >= '0' && s[i] <= '9' }
	n := 0
	for up(n) {
		n++
	}
	if n > 1 && low(n) && low(n+1) {
		return n - 1
	}
	for low(n) || dig(n) {
		n++
	}
	return n
}

func p20Calls(w *engine.W) []*engine.Family {
	big := func(q, t int) int { return engine.Pick(w, q, t) }
	scalars := []any{nil, "", "a", "b", 0, 1, true, false, "true", "0"}
	letters := []string{"a", "B", "1", "_", "é", "É", " "}
	text1 := func(alphabet []string, q, t int) func(x *engine.X, w *engine.W) []any {
		return func(x *engine.X, w *engine.W) []any { return []any{word(x, alphabet, big(q, t))} }
	}
	onText := func(f func(string) any) func(a []any) (any, bool) {
		return func(a []any) (any, bool) {
			s, ok := a[0].(string)
			if !ok {
				return nil, false
			}
			return f(s), true
		}
	}
	affix := func(f func(s, p string) any) func(a []any) (any, bool) {
		return func(a []any) (any, bool) { return f(a[0].(string), a[1].(string)), true }
	}
	two := func(x *engine.X, w *engine.W) []any {
		ab := []string{"a", "b"}
		return []any{word(x, ab, big(5, 7)), word(x, ab, 3)}
	}
	upperFirst := func(s string) any {
		return runeMap(s, func(i int, r rune) rune {
			if i == 0 {
				return unicode.ToUpper(r)
			}
			return r
		})
	}
	lists := func(x *engine.X, w *engine.W) any {
		items := append([]any{"", "a", "b", "B", "ab", "é"}, p20Types4...)
		items = append(items, map[string]any{"k": 1, "j": "x", "l": nil}, 7, nil)
		if x.Bool() {
			return strs(some(x, []any{"", "a", "b", "B"}, 0, big(3, 4)))
		}
		return some(x, items, 0, big(3, 4))
	}
	hs := []helper{
		{"toLower", "strings", text1(letters, 3, 5), onText(func(s string) any { return runeMap(s, func(i int, r rune) rune { return unicode.ToLower(r) }) })},
		{"toUpper", "strings", text1(letters, 3, 5), onText(func(s string) any { return runeMap(s, func(i int, r rune) rune { return unicode.ToUpper(r) }) })},
		{"firstLetterToLower", "strings", text1(letters, 3, 5), onText(func(s string) any {
			return runeMap(s, func(i int, r rune) rune {
				if i == 0 {
					return unicode.ToLower(r)
				}
				return r
			})
		})},
		{"firstLetterToUpper", "strings", text1(letters, 3, 5), onText(upperFirst)},
		{"firstWordToLower", "identifiers", text1([]string{"A", "B", "a", "b", "1", "_"}, 5, 6), onText(func(s string) any {
			n := firstWord(s)
			return strings.ToLower(s[:n]) + s[n:]
		})},
		{"camelCase", "strings", text1(letters, 4, 5), onText(func(s string) any { return textcase.CamelCase(s) })},
		{"pascalCase", "strings", text1(letters, 4, 5), onText(func(s string) any { return textcase.PascalCase(s) })},
		{"snakeCase", "strings", text1(letters, 4, 5), onText(func(s string) any { return textcase.SnakeCase(s) })},
		{"kebabCase", "strings", text1(letters, 4, 5), onText(func(s string) any { return textcase.KebabCase(s) })},
		{"hasPrefix", "pairs of strings", two, affix(func(s, p string) any { return len(s) >= len(p) && s[:len(p)] == p })},
		{"hasSuffix", "pairs of strings", two, affix(func(s, p string) any { return len(s) >= len(p) && s[len(s)-len(p):] == p })},
		{"trimPrefix", "pairs of strings", two, affix(func(s, p string) any {
			if len(s) >= len(p) && s[:len(p)] == p {
				return s[len(p):]
			}
			return s
		})},
		{"trimSuffix", "pairs of strings", two, affix(func(s, p string) any {
			if len(s) >= len(p) && s[len(s)-len(p):] == p {
				return s[:len(s)-len(p)]
			}
			return s
		})},
		{"replaceAll", "triples of strings", func(x *engine.X, w *engine.W) []any {
			ab := []string{"a", "b"}
			old := word(x, ab, 1)
			return []any{word(x, ab, big(4, 5)), old + "a", word(x, ab, 2)}
		}, func(a []any) (any, bool) {
			s, old, repl, out := a[0].(string), a[1].(string), a[2].(string), ""
			for len(s) > 0 {
				if len(s) >= len(old) && s[:len(old)] == old {
					out, s = out+repl, s[len(old):]
				} else {
					out, s = out+s[:1], s[1:]
				}
			}
			return out, true
		}},
		{"split", "separators and strings", func(x *engine.X, w *engine.W) []any {
			ab := []string{"a", ",", ";"}
			return []any{[]string{",", ";", "a,", "", ",,"}[x.Choose(5)], word(x, ab, big(5, 6))}
		}, func(a []any) (any, bool) {
			sep, s := a[0].(string), a[1].(string)
			out, cur := []string{}, ""
			if sep == "" {
				for i := range s {
					out = append(out, s[i:i+1])
				}
				return out, true
			}
			for len(s) > 0 {
				if len(s) >= len(sep) && s[:len(sep)] == sep {
					out, cur, s = append(out, cur), "", s[len(sep):]
				} else {
					cur, s = cur+s[:1], s[1:]
				}
			}
			return append(out, cur), true
		}},
		{"join", "lists and separators", func(x *engine.X, w *engine.W) []any {
			l := lists(x, w)
			return []any{l, []string{"", ",", "ab"}[x.Choose(3)]}
		}, func(a []any) (any, bool) {
			out := ""
			add := func(i int, s string) {
				if i > 0 {
					out += a[1].(string)
				}
				out += s
			}
			switch l := a[0].(type) {
			case []string:
				for i, s := range l {
					add(i, s)
				}
			case []any:
				for i, v := range l {
					s, ok := textOf(v)
					if !ok {
						return nil, false
					}
					add(i, s)
				}
			}
			return out, true
		}},
		{"first", "lists", func(x *engine.X, w *engine.W) []any { return []any{lists(x, w)} }, func(a []any) (any, bool) {
			rv := reflect.ValueOf(a[0])
			if rv.Len() == 0 {
				return nil, false
			}
			return rv.Index(0).Interface(), true
		}},
		{"last", "lists", func(x *engine.X, w *engine.W) []any { return []any{lists(x, w)} }, func(a []any) (any, bool) {
			rv := reflect.ValueOf(a[0])
			if rv.Len() == 0 {
				return nil, false
			}
			return rv.Index(rv.Len() - 1).Interface(), true
		}},
		{"lastIndex", "lists and arrays", func(x *engine.X, w *engine.W) []any {
			switch x.Choose(4) {
			case 0:
				return []any{[...]int{1, 2, 3}}
			case 1:
				return []any{[]*schema.Type{nil}}
			case 2:
				return []any{[]string(nil)}
			}
			return []any{lists(x, w)}
		}, func(a []any) (any, bool) { return reflect.ValueOf(a[0]).Len() - 1, true }},
		{"sort", "lists of strings and types", func(x *engine.X, w *engine.W) []any {
			return []any{some(x, []any{"", "a", "b", "B", "ab", "é", p20Types4[0]}, 0, big(4, 5))}
		}, func(a []any) (any, bool) {
			out := append([]any{}, a[0].([]any)...)
			for i := range out {
				for j := i; j > 0; j-- {
					p, _ := textOf(out[j-1])
					q, _ := textOf(out[j])
					if p <= q {
						break
					}
					out[j], out[j-1] = out[j-1], out[j]
				}
			}
			return out, true
		}},
		{"array", "scalars", func(x *engine.X, w *engine.W) []any { return some(x, scalars, 0, big(3, 4)) }, func(a []any) (any, bool) { return append([]any{}, a...), true }},
		{"in", "scalars", func(x *engine.X, w *engine.W) []any { return some(x, scalars, 1, big(4, 5)) }, func(a []any) (any, bool) {
			for _, v := range a[1:] {
				if same(v, a[0]) {
					return true, true
				}
			}
			return false, true
		}},
		{"default", "scalars", func(x *engine.X, w *engine.W) []any { return some(x, append([]any{1.5, 0.0, "x"}, scalars...), 2, 2) }, func(a []any) (any, bool) {
			if empty(a[0]) {
				return a[1], true
			}
			return a[0], true
		}},
		{"coalesce", "scalars", func(x *engine.X, w *engine.W) []any { return some(x, scalars, 0, big(4, 5)) }, func(a []any) (any, bool) {
			for _, v := range a {
				if !empty(v) {
					return v, true
				}
			}
			return "", true
		}},
		{"ternary", "conditions", func(x *engine.X, w *engine.W) []any {
			c := append([]any{"True", "yes", " true"}, scalars...)
			return []any{c[x.Choose(len(c))], scalars[x.Choose(len(scalars))], scalars[x.Choose(len(scalars))]}
		}, func(a []any) (any, bool) {
			switch a[0] {
			case true, "true":
				return a[1], true
			case false, "false":
				return a[2], true
			}
			return nil, false
		}},
		{"dict", "keys and values", func(x *engine.X, w *engine.W) []any { return some(x, []any{"a", "b", "", 1, nil}, 0, big(5, 6)) }, func(a []any) (any, bool) {
			if len(a)%2 == 1 {
				return nil, false
			}
			m := map[string]any{}
			for i := 0; i < len(a); i += 2 {
				k, ok := a[i].(string)
				if !ok {
					return nil, false
				}
				m[k] = a[i+1]
			}
			return m, true
		}},
		{"get", "keys of all kinds", func(x *engine.X, w *engine.W) []any {
			ks := append([]any{"bool", "struct", "map<string,[]St>", "nope", "nil", 7}, p20Types4...)
			return []any{map[string]any{"bool": 1, "struct": 2, "map<string,[]St>": 3, "nil": nil}, ks[x.Choose(len(ks))]}
		}, func(a []any) (any, bool) {
			k, ok := textOf(a[1])
			if !ok {
				return nil, false
			}
			v, ok := a[0].(map[string]any)[k]
			return v, ok
		}},
		{"isString", "scalars", func(x *engine.X, w *engine.W) []any {
			vs := append(append([]any{}, scalars...), p20Types4...)
			return []any{vs[x.Choose(len(vs))]}
		}, func(a []any) (any, bool) { _, ok := a[0].(string); return ok, true }},
		{"exists", "keys", func(x *engine.X, w *engine.W) []any {
			ks := append([]string{"nope"}, p20Words...)
			m := map[string]any{}
			for i, k := range p20Words {
				if i%3 != 0 {
					m[k] = nil
				}
			}
			return []any{m, ks[x.Choose(len(ks))]}
		}, func(a []any) (any, bool) { _, ok := a[0].(map[string]any)[a[1].(string)]; return ok, true }},
		{"hasField", "objects and names", func(x *engine.X, w *engine.W) []any {
			full := &schema.Type{Name: "N", Kind: "struct", Fields: []*schema.TypeField{{}}, TypeExtra: schema.TypeExtra{Optional: true}}
			os := []any{&schema.Type{}, schema.Type{}, &schema.VarType{}, &schema.Method{}, "Name", 1, map[string]any{"Name": 1}, []any{},
				full, *full, &schema.VarType{Expr: "x"}, &schema.Method{Name: "M", Succinct: true}}
			ns := []string{"Name", "Kind", "Optional", "Expr", "name", "", "Name ", "String", "Succinct", "Fields", "Type", "Meta", "Comments", "List", "Annotations", "Errors", "Inputs", "Service", "TypeExtra", " Fields"}
			return []any{os[x.Choose(len(os))], ns[x.Choose(len(ns))]}
		}, func(a []any) (any, bool) {
			switch a[0].(type) {
			case *schema.Type, schema.Type:
				return oneOf(a[1], "Name", "Kind", "Optional", "Fields", "Type", "Meta", "Comments", "TypeExtra"), true
			case *schema.VarType:
				return oneOf(a[1], "Expr", "Type", "Comments", "List"), true
			case *schema.Method:
				return oneOf(a[1], "Name", "Succinct", "Comments", "Annotations", "Errors", "Inputs", "Service"), true
			}
			return false, true
		}},
	}
	var fams []*engine.Family
	for _, h := range hs {
		fams = append(fams, p20Fn(h, "fn "+h.name, "every call with short "+h.bound))
		if args, bound := p20Long(w, h.name); args != nil {
			h.args = args
			fams = append(fams, p20Fn(h, "long "+h.name, bound))
		}
		if args, bound := p20Vocabulary(w, h.name); args != nil {
			h.args = args
			fams = append(fams, p20Fn(h, "words "+h.name, bound))
		}
	}
	return fams
}

// p20Long yields arguments much longer than the others, for helpers that take
// a text, a list or any number of values.
func p20Long(w *engine.W, name string) (func(x *engine.X, w *engine.W) []any, string) {
	max := engine.Pick(w, 24, 70)
	// long sequence of one or two elements in turn, but for one place
	seq := func(x *engine.X, from []any, min int) []any {
		n := min + x.Choose(max)
		a, b := from[x.Choose(len(from))], from[x.Choose(len(from))]
		out := []any{}
		for i := 0; i < n; i++ {
			out = append(out, a)
			if i%2 == 1 && len(from) > 3 {
				out[i] = b
			}
		}
		if n > 0 {
			c := from[x.Choose(len(from))]
			out[[]int{0, n / 2, n - 1}[x.Choose(3)]] = c
		}
		return out
	}
	lists := fmt.Sprintf("sequences of up to %d of one or two values with another one first, in the middle or last", max)
	switch name {
	case "toLower", "toUpper", "firstLetterToLower", "firstLetterToUpper", "firstWordToLower", "camelCase", "pascalCase", "snakeCase", "kebabCase", "split", "trimPrefix", "trimSuffix", "hasPrefix", "hasSuffix", "replaceAll":
		pats := []string{"a", "A", "aB", "Ab", "ABc", "a1", "1", "a_b", "é", "É", "A1b", "aBC", " a", "ab,", "-a", ".a", "I", "ID", "Id", "URLs", "ß", "ǆ", "İ", "ÿ", "HTTP2", "𐐀", "世"}
		return func(x *engine.X, w *engine.W) []any {
			p := []rune(pats[x.Choose(len(pats))])
			n := 1 + x.Choose(max)
			rs := []rune{}
			for i := 0; i < n; i++ {
				rs = append(rs, p[i%len(p)])
			}
			if k := x.Choose(4); k > 0 {
				rs[[]int{0, n / 2, n - 1}[k-1]] = []rune("aA1_é ")[x.Choose(6)]
			}
			s := string(rs)
			if name == "firstWordToLower" {
				// identifiers
				s = strings.Map(func(r rune) rune {
					if r > 127 || strings.ContainsRune(" ,-.", r) {
						return '_'
					}
					return r
				}, s)
			}
			switch name {
			case "split":
				return []any{[]string{",", "a", "B", "1"}[x.Choose(4)], s}
			case "trimPrefix", "trimSuffix", "hasPrefix", "hasSuffix":
				k := []int{1, n / 2, n - 1, n}[x.Choose(4)]
				part := string(rs[:k])
				if name == "trimSuffix" || name == "hasSuffix" {
					part = string(rs[n-k:])
				}
				if x.Bool() {
					part = strings.ToUpper(part)
				}
				return []any{s, part}
			case "replaceAll":
				return []any{s, []string{"a", "aB", "1", "é"}[x.Choose(4)], []string{"", "x", "aa"}[x.Choose(3)]}
			}
			return []any{s}
		}, fmt.Sprintf("texts of up to %d characters, of %d patterns with another character first, in the middle or last", max, len(pats))
	case "in", "coalesce", "array":
		return func(x *engine.X, w *engine.W) []any {
			from := []any{nil, "a", 1, true, "1"}
			switch name {
			case "in":
				return append([]any{from[x.Choose(len(from))]}, seq(x, from, 1)...)
			case "coalesce":
				from = []any{nil, "", 0}
				out := seq(x, from, 1)
				if x.Bool() {
					out = append(out, []any{"a", 1, true}[x.Choose(3)])
					if x.Bool() {
						out = append(out, "z")
					}
				}
				return out
			}
			return seq(x, from, 1)
		}, lists
	case "first", "last", "lastIndex", "sort", "join":
		return func(x *engine.X, w *engine.W) []any {
			from := []any{"", "a", "b", "B", "10", "9"}
			out := seq(x, from, 0)
			var l any = out
			if name != "sort" && x.Bool() {
				l = strs(out)
			}
			if name == "join" {
				return []any{l, []string{"", ", "}[x.Choose(2)]}
			}
			return []any{l}
		}, lists
	case "dict":
		return func(x *engine.X, w *engine.W) []any {
			n := 1 + x.Choose(max)
			at := x.Choose(n)
			k := []any{"k0", "K1", "new", ""}[x.Choose(4)]
			out := []any{}
			for i := 0; i < n; i++ {
				if i == at {
					out = append(out, k, "other")
					continue
				}
				out = append(out, fmt.Sprint("k", i), i)
			}
			if x.Bool() {
				out = out[:len(out)-1]
			}
			return out
		}, fmt.Sprintf("up to %d pairs, one of them with a key of its own or a repeated one, also with a value missing", max)
	}
	return nil, ""
}

// p20Words are texts of every kind: names in every style, words of schemas,
// blanks and punctuation.
var p20Words = []string{"userID", "UserID", "HTTPServer", "XMLHttpRequest", "user_id", "user-id", "user.id", "User Name", " lead", "  lead", "trail ", "trail  ", "\tx", "x\n", "a\tb", "a\nb", "a\r\nb",
	"1st", "2", "42", "007", "-1", "1.5", "_x", "x_", "__init__", "a__b", "a--b", "a..b", "ÀÉ", "Éa", "éA", "straße", "ǆ", "İx", "ﬁx", "日本", "🙂", "a🙂b", "A1B2", "v2", "V2", "API", "APIs", "apiV2", "OAuth2Token",
	"IPv6Address", "iOSApp", "x", "X", "XY", "Xy", "xY", "XyZ", "XYz", "XYZa", "XYZab", "ABCDef1GH", "ID", "Id", "IDs", "true", "false", "nil", "null", "map", "[]", "map<string,int>", "[]string", "any", "string", "struct", "enum", "alias",
	"-", "--", "_", ".", ",", ";", "=", "%s", "%", "{{x}}", "\"q\"", "'q'", "\\", "/", "a/b", "a,b", "a;b", "a=b", "<b>", "&", "<no value>", "\u00a0x", "\ufeffx", "x\u200b", "aa", "aaa", "abab", "aXa"}

func oneOf(v any, of ...string) bool {
	for _, s := range of {
		if v == s {
			return true
		}
	}
	return false
}

// p20Vocabulary yields words as arguments, for helpers that take texts.
func p20Vocabulary(w *engine.W, name string) (func(x *engine.X, w *engine.W) []any, string) {
	pick := func(x *engine.X) string { return p20Words[x.Choose(len(p20Words))] }
	bound := fmt.Sprintf("every call with %d words of every kind", len(p20Words))
	switch name {
	case "toLower", "toUpper", "firstLetterToLower", "firstLetterToUpper", "camelCase", "pascalCase", "snakeCase", "kebabCase", "isString":
		return func(x *engine.X, w *engine.W) []any { return []any{pick(x)} }, bound
	case "firstWordToLower":
		return func(x *engine.X, w *engine.W) []any {
			return []any{strings.Map(func(r rune) rune {
				if r < 128 && (unicode.IsLetter(r) || unicode.IsDigit(r)) {
					return r
				}
				return '_'
			}, pick(x))}
		}, bound
	case "hasPrefix", "hasSuffix", "trimPrefix", "trimSuffix", "split":
		return func(x *engine.X, w *engine.W) []any {
			s, t := pick(x), pick(x)
			switch x.Choose(3) {
			case 1:
				s += t
			case 2:
				s = t + s
			}
			if name == "split" {
				return []any{t, s}
			}
			return []any{s, t}
		}, bound + ", two of them, also joined"
	case "replaceAll":
		return func(x *engine.X, w *engine.W) []any {
			s, t := pick(x), pick(x)
			return []any{[]string{s, t + s + t}[x.Choose(2)], t, []string{"", t + "R" + t}[x.Choose(2)]}
		}, bound + ", two of them, also joined"
	case "join":
		return func(x *engine.X, w *engine.W) []any {
			s, t := pick(x), pick(x)
			var l any = []any{s, "m", s}
			if x.Bool() {
				l = []string{s, "m", s}
			}
			return []any{l, t}
		}, bound + ", two of them"
	case "sort", "array", "first", "last":
		return func(x *engine.X, w *engine.W) []any {
			l := []any{pick(x), pick(x)}
			if x.Bool() {
				l = append(l, "m")
			}
			if name == "array" {
				return l
			}
			return []any{l}
		}, bound + ", two of them"
	case "in", "default", "coalesce":
		return func(x *engine.X, w *engine.W) []any { return []any{pick(x), pick(x)} }, bound + ", two of them"
	case "ternary":
		return func(x *engine.X, w *engine.W) []any { return []any{pick(x), "y", "n"} }, bound
	case "dict":
		return func(x *engine.X, w *engine.W) []any { return []any{pick(x), 1, pick(x), 2} }, bound + ", two of them as keys"
	case "get":
		return func(x *engine.X, w *engine.W) []any { return []any{map[string]any{pick(x): 1, "m": 2}, pick(x)} }, bound + ", as key of a dictionary and as key asked for"
	}
	return nil, ""
}

func p20Fn(h helper, name, bound string) *engine.Family {
	return &engine.Family{
		Name: name, Bound: bound,
		Run: func(x *engine.X, w *engine.W) {
			args := h.args(x, w)
			if !w.Mine(func() string { return h.name + " " + show(args) }) {
				return
			}
			before := []string{}
			for _, a := range args {
				before = append(before, full(a))
			}
			got, err := call(w, h.name, args)
			want, ok := h.want(args)
			if ok != (err == nil) {
				w.Fail(h.name, "%s %s: error %v, expected %s, %v", h.name, show(args), err, show(want), ok)
				return
			}
			if ok && !same(got, want) {
				w.Fail(h.name, "%s %s: got %s, expected %s", h.name, show(args), show(got), show(want))
			}
			for i, a := range args {
				if full(a) != before[i] {
					w.Fail(h.name+"-modifies", "%s changes its argument %d from %s to %s", h.name, i, before[i], full(a))
				}
			}
			w.State(show(got))
		},
	}
}

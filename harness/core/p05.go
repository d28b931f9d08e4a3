package main

import (
	"fmt"
	"strings"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P05",
		Rule: "An execution declares a field, alias or argument of one type expression, in RIDL or JSON, before or after the types it names, and compares acceptance and the fully resolved type tree with the reference; a state is a distinct expected schema or rejection.",
		Assumptions: []string{
			"a map key that is an alias counts as an alias of an enum when its target is the enum itself",
			"JSON type expressions are written without spaces",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p05All(w), p05Deep(w), p05Raw(w), p05Edits(w), p05Spaced(w), p05Keys(), p05Names(), p05Shadow(), p05Aliases(w), p05Cases(), p05Long(w), p05Punct(w), p05Adorned()}
		},
	})
}

// p05Types are the declared types.
func p05Types() []any {
	return []any{
		&Struct{Name: "St", Fields: []Field{{Name: "x", T: N("int")}}},
		&Alias{Name: "Al", T: N("string")},
		&Enum{Name: "En", T: "uint8", Mem: []Member{{Name: "A"}}},
		&Alias{Name: "Ae", T: N("En")},
		&Alias{Name: "As", T: N("St")},
		&Alias{Name: "Am", T: M("En", L(N("St")))},
		&Enum{Name: "Es", T: "string", Mem: []Member{{Name: "B"}}},
	}
}

// p05Doc uses an expression at one kind of position.
func p05Doc(t *TE, pos int, after bool) *Doc {
	var it any
	switch pos {
	case 0:
		it = &Struct{Name: "Use", Fields: []Field{{Name: "a", T: N("bool")}, {Name: "b", T: t, Opt: true}, {Name: "c", T: N("St")}}}
	case 1:
		it = &Alias{Name: "Use", T: t}
	case 2:
		it = &Svc{Name: "Use", Methods: []Method{{Name: "M", In: []Arg{{Name: "a", T: N("Ae")}, {Name: "b", T: t}, {Name: "c", T: N("St"), Opt: true}}}}}
	case 3:
		it = &Svc{Name: "Use", Methods: []Method{{Name: "M", HasOut: true, SOut: true, Out: []Arg{{Name: "b", T: t, Opt: true}, {Name: "c", T: N("As")}}}}}
	}
	d := NewDoc()
	if after {
		return d.Add(p05Types()...).Add(it)
	}
	return d.Add(it).Add(p05Types()...)
}

// exprs are all expressions up to a depth.
func exprs(depth int, names []string, keys []*TE) []*TE {
	var out []*TE
	for _, n := range names {
		out = append(out, N(n))
	}
	if depth == 0 {
		return out
	}
	for _, e := range exprs(depth-1, names, keys) {
		out = append(out, L(e))
		for _, k := range keys {
			out = append(out, MX(k, e))
		}
	}
	return out
}

func nameTEs(ns []string) []*TE {
	var out []*TE
	for _, n := range ns {
		out = append(out, N(n))
	}
	return out
}

func p05Family(name, bound string, es []*TE) *engine.Family {
	return &engine.Family{
		Name: name, Bound: fmt.Sprintf("%s (%d expressions) as field, alias, input and output, before and after the types it names, RIDL and JSON", bound, len(es)),
		Run: func(x *engine.X, w *engine.W) {
			t := es[x.Choose(len(es))]
			pos := x.Choose(4)
			after := x.Bool()
			runBoth(w, func() *Doc { return p05Doc(t, pos, after) })
		},
	}
}

var p05Bad = []string{"Nope", "st", "ST", "Int", "STRING", "map", "Use2", "int128"}

func p05All(w *engine.W) *engine.Family {
	names := append(append([]string{}, coreTypes...), "St", "Al", "En", "Ae", "As", "Am", "Es", "Nope", "st")
	keys := []*TE{N("string"), N("uint8"), N("En"), N("Ae"), N("St"), N("Al")}
	if w.Thorough() {
		keys = nameTEs(names)
	}
	return p05Family("all", "all expressions of depth 2 over every core type, declared types of each kind and unknown names", exprs(2, names, keys))
}

func p05Deep(w *engine.W) *engine.Family {
	d := engine.Pick(w, 4, 5)
	return p05Family("deep", fmt.Sprintf("all expressions of depth %d over few names", d),
		exprs(d, []string{"string", "St", "Ae", "Nope"}, []*TE{N("string"), N("En"), N("Nope")}))
}

func p05Keys() *engine.Family {
	var keys []*TE
	names := append(append([]string{}, coreTypes...), "St", "Al", "En", "Ae", "As", "Am", "Es", "Use")
	keys = append(keys, nameTEs(append(names, p05Bad...))...)
	for _, n := range []string{"string", "int", "En"} {
		keys = append(keys, L(N(n)))
	}
	var es []*TE
	for _, k := range keys {
		for _, v := range append(names, p05Bad...) {
			es = append(es, MX(k, N(v)), M("string", MX(k, N(v))), L(MX(k, L(N(v)))))
		}
	}
	return p05Family("keys", "every name as a map key with every name as the value, plain and nested", es)
}

// p05Names tries near misses of every name.
func p05Names() *engine.Family {
	var es []*TE
	seen := map[string]bool{}
	for _, n := range append(append([]string{}, coreTypes...), "St", "Al", "En", "Ae", "As", "Am", "Es") {
		for _, v := range []string{n, strings.ToUpper(n), strings.ToLower(n), strings.ToUpper(n[:1]) + n[1:], strings.ToLower(n[:1]) + n[1:], n + "x", n + "1", n + "_", "x" + n, n[:len(n)-1], n[1:], n + n} {
			if v != "" && !seen[v] && v != "map" {
				seen[v] = true
				es = append(es, N(v), L(N(v)), MX(N(v), N("int")), M("int", N(v)))
			}
		}
	}
	for _, n := range strings.Fields("boolean integer double float number str text char rune bytes varchar object dict hash list array set slice void none nil undefined unknown struct enum type alias date time datetime duration instant uuid decimal numeric real long short i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 uint128 int128 uint256 int256 float16 float128 BigInt bigInt biguint bigfloat bignum big error interface interface{} json self this T _ 0 1 int-8 int.8 optional stream message record string? *string &string string[] [string] [1]string map<string> map[string]string map<string:string> map(string,string)") {
		es = append(es, N(n), L(N(n)), MX(N("string"), N(n)))
	}
	return p05Family("near-names", "near misses of every core and declared name, and names of types in other languages", es)
}

// ------------------------------------------------------------ raw expressions

// refParse reads a type expression by the grammar, or returns nil.
func refParse(s string) *TE {
	t, rest := refExpr(s)
	if t == nil || rest != "" {
		return nil
	}
	return t
}

func refExpr(s string) (*TE, string) {
	if r, ok := strings.CutPrefix(s, "[]"); ok {
		e, rest := refExpr(r)
		if e == nil {
			return nil, s
		}
		return L(e), rest
	}
	if r, ok := strings.CutPrefix(s, "map<"); ok {
		k, rest := refName(r)
		if k == nil || !strings.HasPrefix(rest, ",") {
			return nil, s
		}
		v, rest := refExpr(rest[1:])
		if v == nil || !strings.HasPrefix(rest, ">") {
			return nil, s
		}
		return MX(k, v), rest[1:]
	}
	return refName(s)
}

func refName(s string) (*TE, string) {
	i := 0
	for i < len(s) && (asciiLetter(s[i]) || s[i] >= '0' && s[i] <= '9' || s[i] == '_') {
		i++
	}
	if i == 0 {
		return nil, s
	}
	return N(s[:i]), s[i:]
}

func p05Raw(w *engine.W) *engine.Family {
	toks := []string{"[]", "map<", ">", ",", "string", "En", "St", "<", "[", "]", "map"}
	n := engine.Pick(w, 5, 6)
	return &engine.Family{
		Name: "raw", Bound: fmt.Sprintf("all sequences of 0..%d type tokens out of %d, as the type of a field, alias or argument, RIDL and JSON", n, len(toks)),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(n + 1)
			s := ""
			for i := 0; i < k; i++ {
				s += toks[x.Choose(len(toks))]
			}
			pos := x.Choose(3)
			if pos == 2 && strings.Trim(s, ",") != s {
				return // superfluous commas between arguments are not judged here
			}
			if k == n && pos > 0 && !w.Thorough() {
				return
			}
			p05Judge(w, s, pos)
		},
	}
}

// p05Judge has expression s read at a position, in RIDL and JSON.
func p05Judge(w *engine.W, s string, pos int) {
	t := refParse(s)
	doc := func() *Doc { return p05Doc(N("PLACEHOLDER"), pos, true) }
	d := doc()
	if t != nil {
		d = p05Doc(t, pos, true)
	}
	text := func(f string) string {
		return strings.Replace(f, "PLACEHOLDER", s, 1)
	}
	blank := strings.ContainsAny(s, " \t") // see spaced
	if !blank && w.Mine(func() string { return text(doc().RIDL()) }) {
		want, ok := d.Expect()
		expect(w, text(doc().RIDL()), want, ok && t != nil)
	}
	s = strings.ReplaceAll(s, "\t", "\\t")
	if w.Mine(func() string { return text(doc().JSON(false)) }) {
		want, ok := d.written().Expect()
		sc, err := parseJSON(text(doc().JSON(false)))
		judge(w, sc, err, want, ok && t != nil)
	}
}

// p05Edits damages well-formed expressions, once and twice.
func p05Edits(w *engine.W) *engine.Family {
	short := []string{"map<En,[]St>", "map<int,map<En,St>>", "[]map<En,Al>"}
	long := []string{"map<string,map<uint8,[]En>>", "[][]map<Ae,[]map<string,St>>", "map<string,map<string,map<string,any>>>", "[]timestamp"}
	ins := []string{"<", ">", ",", "[", "]", "[]", "x", "map<", "En", ",En", ">>", " ", "\t"}
	edits := len(ins)*2 + 3
	edit := func(s string, at, e int) (string, bool) {
		if at > len(s) {
			return s, false
		}
		if e < len(ins) {
			return s[:at] + ins[e] + s[at:], true
		}
		n := 1
		put := ""
		if e -= len(ins); e < len(ins) {
			put = ins[e]
		} else {
			n = 1 + e - len(ins)
		}
		if at+n > len(s) {
			return s, false
		}
		return s[:at] + put + s[at+n:], true
	}
	seeds := append(append([]string{}, short...), long...)
	var second []int
	for e := 0; e < edits; e++ {
		if w.Thorough() || e == 1 || e == 2 || e >= 2*len(ins) && e%2 == 0 || e >= len(ins) && e%4 == 0 {
			second = append(second, e)
		}
	}
	return &engine.Family{
		Name: "edits", Bound: fmt.Sprintf("%d well-formed expressions with each of %d edits (1 to 3 characters removed, a token put in or in place of a character) at each position, and pairs of them"+engine.Pick(w, " in one expression, the second of few kinds", "")+", as the type of a field, alias or argument, RIDL and JSON", len(seeds), edits),
		Run: func(x *engine.X, w *engine.W) {
			i := x.Choose(len(seeds))
			s := seeds[i]
			at := x.Choose(len(s) + 1)
			s, ok := edit(s, at, x.Choose(edits))
			if !ok {
				return
			}
			pos := 0
			if (i < engine.Pick(w, 1, len(seeds))) && x.Bool() {
				// the second edit stands no further left than the first
				n := len(s) + 1 - at
				if n <= 0 {
					return
				}
				if s, ok = edit(s, at+x.Choose(n), second[x.Choose(len(second))]); !ok {
					return
				}
				if w.Thorough() {
					pos = x.Choose(3)
				}
			} else {
				pos = x.Choose(3)
			}
			if pos == 2 && strings.Trim(s, ",") != s || s == "" {
				return // superfluous commas between arguments are not judged here
			}
			p05Judge(w, s, pos)
		},
	}
}

// p05Spaced: white space and bars between the tokens of a type.
func p05Spaced(w *engine.W) *engine.Family {
	toks := []string{"[]", "map<", "map<string,", ">", ",", "E", "n", " ", "|"}
	n := engine.Pick(w, 5, 7)
	return &engine.Family{
		Name: "spaced", Bound: fmt.Sprintf("all sequences of 0..%d type tokens out of %d with white space and bars among them, as the type of a field, alias or argument", n, len(toks)),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(n + 1)
			var parts []string
			for i := 0; i < k; i++ {
				parts = append(parts, toks[x.Choose(len(toks))])
			}
			s := strings.Join(parts, "")
			if !strings.ContainsAny(s, " |") || strings.Trim(s, " ,|") != s {
				return // superfluous commas between arguments are not judged here
			}
			pos := 1
			if k < n || w.Thorough() {
				pos = x.Choose(3)
			}
			if !w.Mine(func() string { return fmt.Sprint(pos, s) }) {
				return
			}
			// white space may stand around angle brackets and commas
			plain, brackets := s, false
			for strings.Contains(plain, "  ") {
				plain = strings.ReplaceAll(plain, "  ", " ")
			}
			for _, t := range []string{"<", ">", ",", "["} {
				plain = strings.ReplaceAll(strings.ReplaceAll(plain, t+" ", t), " "+t, t)
			}
			if p := strings.ReplaceAll(plain, "] ", "]"); p != plain {
				plain, brackets = p, true
			}
			t := refParse(plain)
			if t != nil && (brackets || strings.Contains(s, " [")) {
				return // nor is white space beside square brackets
			}
			d := p05Doc(N("PLACEHOLDER"), pos, true)
			if t != nil {
				d = p05Doc(t, pos, true)
			}
			want, ok := d.Expect()
			expect(w, strings.Replace(p05Doc(N("PLACEHOLDER"), pos, true).RIDL(), "PLACEHOLDER", s, 1), want, ok && t != nil)
		},
	}
}

// p05Shadow declares types named like core types in other casing, and types
// whose names are prefixes of each other.
func p05Shadow() *engine.Family {
	var decl, refs []string
	for _, n := range coreTypes {
		decl = append(decl, strings.ToUpper(n[:1])+n[1:])
	}
	decl = append(decl, "Map", "List", "Foo", "FooBar", "Fo", "F", "FooBarBaz", "MapOf", "Mapstring")
	refs = append(append([]string{}, coreTypes...), decl...)
	refs = append(refs, "foo", "fooBar", "Foob", "list", "FOO")
	return &engine.Family{
		Name: "shadow", Bound: fmt.Sprintf("%d names, each as value and list element and map value, when %d types are named like core types or prefixes of each other", len(refs), len(decl)),
		Run: func(x *engine.X, w *engine.W) {
			r := refs[x.Choose(len(refs))]
			shape := x.Choose(3)
			kind := x.Choose(3)
			pos := x.Choose(4)
			rev := x.Bool()
			runBoth(w, func() *Doc {
				t := []*TE{N(r), L(N(r)), M("string", N(r))}[shape]
				d := p05Doc(t, pos, true)
				for i := range decl {
					n := decl[i]
					if rev {
						n = decl[len(decl)-1-i]
					}
					switch kind {
					case 0:
						d.Add(&Struct{Name: n})
					case 1:
						d.Add(&Enum{Name: n, T: "int", Mem: []Member{{Name: "A"}}})
					case 2:
						d.Add(&Alias{Name: n, T: N("bool")})
					}
				}
				return d
			})
		},
	}
}

// p05Aliases takes every graph of aliases over few targets, in every order.
func p05Aliases(w *engine.W) *engine.Family {
	names := []string{"A", "B", "C"}
	targets := []*TE{N("En"), N("St"), N("string"), N("A"), N("B"), N("C"), M("A", N("int")), M("B", N("C")), L(N("C")), M("En", N("A"))}
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	return &engine.Family{
		Name: "alias-graphs", Bound: fmt.Sprintf("every assignment of %d targets to three aliases, in every order, used as values and map keys in a struct, RIDL and JSON", len(targets)),
		Run: func(x *engine.X, w *engine.W) {
			var ts [3]int
			for i := range ts {
				ts[i] = x.Choose(len(targets))
			}
			p := perms[x.Choose(6)]
			use := x.Choose(5)
			runBoth(w, func() *Doc {
				d := NewDoc()
				st := &Struct{Name: "St"}
				switch {
				case use < 3:
					st.Fields = []Field{{Name: "k", T: M(names[use], N("C"))}}
				case use == 3:
					st.Fields = []Field{{Name: "a", T: N("A")}, {Name: "b", T: L(N("B"))}, {Name: "c", T: M("int", N("C"))}}
				}
				en := &Enum{Name: "En", T: "int", Mem: []Member{{Name: "X"}}}
				if use%2 == 0 {
					d.Add(st, en)
				}
				for _, i := range p {
					d.Add(&Alias{Name: names[i], T: targets[ts[i]]})
				}
				if use%2 == 1 {
					d.Add(en, st)
				}
				return d
			})
		},
	}
}

// p05Cases writes every casing of names.
func p05Cases() *engine.Family {
	casings := func(s string) []string {
		var out []string
		for m := 0; m < 1<<len(s); m++ {
			b := []byte(strings.ToLower(s))
			for i := range b {
				if m>>i&1 == 1 {
					b[i] -= 'a' - 'A'
				}
			}
			out = append(out, string(b))
		}
		return out
	}
	var es []*TE
	for _, n := range []string{"int", "bool", "any", "st", "en", "ae", "bigint", "map"} {
		for _, c := range casings(n) {
			if c != "map" {
				es = append(es, N(c), L(N(c)), MX(N(c), N("int")))
			}
		}
	}
	return p05Family("casings", "every casing of several names", es)
}

func p05Long(w *engine.W) *engine.Family {
	max := engine.Pick(w, 120, 600)
	return &engine.Family{
		Name: "nesting", Bound: fmt.Sprintf("lists, maps and mixtures nested 1..%d deep", max),
		Run: func(x *engine.X, w *engine.W) {
			n := 1 + x.Choose(max)
			kind := x.Choose(4)
			pos := x.Choose(4)
			leaf := []string{"string", "St", "Nope"}[x.Choose(3)]
			runBoth(w, func() *Doc {
				t := N(leaf)
				for i := 0; i < n; i++ {
					switch {
					case kind == 0 || kind == 2 && i%2 == 0 || kind == 3 && i%3 != 0:
						t = L(t)
					default:
						t = M([]string{"string", "int64", "En"}[i%3], t)
					}
				}
				return p05Doc(t, pos, n%2 == 0)
			})
		},
	}
}

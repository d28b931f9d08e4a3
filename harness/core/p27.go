package main

import (
	"encoding/json"
	"fmt"
	"strings"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P27",
		Rule: "An execution parses one document with metadata, in RIDL or JSON, and compares acceptance and every metadata entry with the reference; a state is a distinct expected schema or rejection.",
		Assumptions: []string{
			"of several 'json' entries on one field, the last that isn't '-' gives its name",
			"the JSON name of an alias is not interpreted",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p27Entries(w), p27Spread(w), p27Keys(w), p27Values(w), p27Unquoted(w), p27JSONName(w), p27Clash(w), p27ClashWords(w), p27Fields(w), p27Places(), p27Raw(), p27Counts(w), p27Many(w), p27Layout(w), p27Import()}
		},
	})
}

var p27Menu = []Meta{
	{Key: "json", Val: W("x1")},
	{Key: "json", Val: W("-x")},
	{Key: "json", Val: Q("-")},
	{Key: "go.tag.json", Val: Q("id,omitempty")},
	{Key: "go.field.name", Val: W("ID")},
	{Key: "k", Val: W("v")},
	{Key: "k", Val: W("w")},
	{Key: "json.k", Val: W("bad name")},
}

func p27Pick(x *engine.X, n int) (out []Meta) {
	for i, k := 0, x.Choose(n+1); i < k; i++ {
		out = append(out, p27Menu[x.Choose(len(p27Menu))])
	}
	return
}

// p27Entries: every sequence of entries on a field or alias.
func p27Entries(w *engine.W) *engine.Family {
	n := engine.Pick(w, 4, 5)
	return &engine.Family{
		Name: "entries", Bound: fmt.Sprintf("all sequences of up to %d entries of %d on a field between two others, or on an alias between two others, RIDL and JSON", n, len(p27Menu)),
		Run: func(x *engine.X, w *engine.W) {
			alias := x.Bool()
			ms := p27Pick(x, n)
			runBoth(w, func() *Doc {
				if alias {
					return NewDoc(&Alias{Name: "Aa", T: N("int")}, &Alias{Name: "Ab", T: N("int"), Meta: ms}, &Alias{Name: "Ac", T: N("int")})
				}
				return NewDoc(&Struct{Name: "St", Fields: []Field{{Name: "a", T: N("int")}, {Name: "b", T: N("int"), Meta: ms}, {Name: "c", T: N("int")}}})
			})
		},
	}
}

// p27Spread: entries over several owners.
func p27Spread(w *engine.W) *engine.Family {
	n := engine.Pick(w, 1, 2)
	return &engine.Family{
		Name: "spread", Bound: fmt.Sprintf("all arrangements of up to %d entries of %d on each of 2 aliases, 2 fields of one struct and a field of another, RIDL and JSON", n, len(p27Menu)),
		Run: func(x *engine.X, w *engine.W) {
			a, b, c, d, e := p27Pick(x, n), p27Pick(x, 1), p27Pick(x, n), p27Pick(x, 1), p27Pick(x, 1)
			runBoth(w, func() *Doc {
				return NewDoc(
					&Alias{Name: "Aa", T: N("St"), Meta: a}, &Alias{Name: "Ab", T: N("int"), Meta: b},
					&Struct{Name: "St", Fields: []Field{{Name: "f", T: N("int"), Opt: true, Meta: c}, {Name: "g", T: L(N("Aa")), Meta: d}}},
					&Struct{Name: "Su", Fields: []Field{{Name: "f", T: N("int"), Meta: e}}})
			})
		},
	}
}

// p27Keys: every short dotted key.
func p27Keys(w *engine.W) *engine.Family {
	parts := words([]string{"a", "B", "1", "_"}, 1, 2)
	var ok []string
	for _, p := range parts {
		if bareName(p) {
			ok = append(ok, p)
		}
	}
	ok = append(ok, "json", "go", "struct", "type", "stream", "map", "errors")
	n := engine.Pick(w, 3, 4)
	long := engine.Pick(w, 70, 300)
	var single []string
	for i := 4; i <= long; i++ { // long ones
		for _, p := range []string{"a", "abc", "aB_1"} {
			k := strings.Repeat(p+".", i-1)
			single = append(single, k+"z", k+p)
		}
	}
	for _, v := range vocabulary {
		single = append(single, v, v+".a", "a."+v, v+"."+v)
	}
	return &engine.Family{
		Name: "keys", Bound: fmt.Sprintf("all keys of 1..%d parts out of %d, and %d of up to %d parts or of words of every kind, on a field and on an alias, RIDL and JSON", n, len(ok), len(single), long),
		Run: func(x *engine.X, w *engine.W) {
			var ks []string
			if k := x.Choose(n + 1); k == n {
				ks = []string{single[x.Choose(len(single))]}
				if ks[0] == "json" {
					return // has rules of its own, see json-names
				}
			} else {
				for i := 0; i <= k; i++ {
					ks = append(ks, ok[x.Choose(len(ok))])
				}
			}
			runBoth(w, func() *Doc {
				key := strings.Join(ks, ".")
				m := []Meta{{Key: key, Val: W("val")}, {Key: "z", Val: W("z")}}
				return NewDoc(&Alias{Name: "Aa", T: N("int"), Meta: m}, &Struct{Name: "St", Fields: []Field{{Name: "f", T: N("int"), Meta: m}}})
			})
		},
	}
}

// p27Values: every short value.
func p27Values(w *engine.W) *engine.Family {
	vs := words([]string{"a", "1", "_", ".", "-", "/"}, 1, engine.Pick(w, 4, 5))
	qs := words([]string{"a", " ", "=", "+", "#", "\"", ",", "/", "\n", "\\x"}, 1, engine.Pick(w, 2, 3))
	qs = append(append(qs, wordValues...), markValues...)
	for _, v := range wordValues {
		if bare(v) {
			vs = append(vs, v)
		}
	}
	return &engine.Family{
		Name: "values", Bound: fmt.Sprintf("%d bare and %d quoted values of a plain key, as first, last or only entry, RIDL and JSON", len(vs), len(qs)),
		Run: func(x *engine.X, w *engine.W) {
			i := x.Choose(len(vs) + len(qs))
			var l Lit
			if i < len(vs) {
				l = W(vs[i])
			} else {
				l = Q(qs[i-len(vs)])
			}
			k := x.Choose(3)
			if strings.Contains(l.V, "\\") || !bare(l.V) && !l.Q {
				l.Q = true
				if strings.Contains(l.V, "\\") {
					return // a backslash has no spelling of its own
				}
			}
			runBoth(w, func() *Doc {
				m := []Meta{{Key: "k", Val: l}}
				if k == 1 {
					m = append(m, Meta{Key: "z", Val: W("z")})
				} else if k == 2 {
					m = append([]Meta{{Key: "z", Val: W("z")}}, m...)
				}
				return NewDoc(&Alias{Name: "Aa", T: N("int"), Meta: m}, &Struct{Name: "St", Fields: []Field{{Name: "f", T: N("int"), Meta: m}, {Name: "g", T: N("int")}}})
			})
		},
	}
}

// p27JSONName: every short JSON name.
func p27JSONName(w *engine.W) *engine.Family {
	vs := words([]string{"a", "Z", "0", "_", "-", ".", " ", "\u00e9", ","}, 1, engine.Pick(w, 3, 4))
	vs = append(vs, "--", "-a", "id,omitempty", "json", "null", "a\nb", strings.Repeat("x", 1000))
	return &engine.Family{
		Name: "json-names", Bound: fmt.Sprintf("%d JSON names of a field, quoted, alone or together with another JSON name, RIDL and JSON", len(vs)),
		Run: func(x *engine.X, w *engine.W) {
			v := vs[x.Choose(len(vs))]
			k := x.Choose(4)
			runBoth(w, func() *Doc {
				m := []Meta{{Key: "json", Val: Q(v)}}
				switch k {
				case 1:
					m = append(m, Meta{Key: "json", Val: W("ok")})
				case 2:
					m = append([]Meta{{Key: "json", Val: W("ok")}}, m...)
				case 3:
					m = append(m, Meta{Key: "json", Val: Q("-")})
				}
				return NewDoc(&Struct{Name: "St", Fields: []Field{{Name: "f", T: N("int"), Meta: m}, {Name: "g", T: N("int")}}})
			})
		},
	}
}

// p27Clash: JSON names against names and JSON names.
func p27Clash(w *engine.W) *engine.Family {
	names := []string{"a", "A", "b", "ab", "aB"}
	js := []string{"", "-", "a", "A", "b", "AB", "c"}
	n := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "clashes", Bound: fmt.Sprintf("all structs of up to %d fields of %d names with %d JSON names or none, RIDL and JSON", n, len(names), len(js)-1),
		Run: func(x *engine.X, w *engine.W) {
			var fs []Field
			for i, k := 0, 1+x.Choose(n); i < k; i++ {
				f := Field{Name: names[x.Choose(len(names))], T: N("int")}
				if j := js[x.Choose(len(js))]; j != "" {
					f.Meta = []Meta{{Key: "json", Val: Lit{j, j == "-"}}}
				}
				fs = append(fs, f)
			}
			runBoth(w, func() *Doc {
				return NewDoc(&Struct{Name: "Other", Fields: []Field{{Name: "a", T: N("int")}}}, &Struct{Name: "St", Fields: fs})
			})
		},
	}
}

// p27ClashWords: JSON names of all pairs of short names.
func p27ClashWords(w *engine.W) *engine.Family {
	ns := words([]string{"a", "A", "b", "_", "1"}, 0, engine.Pick(w, 2, 3))
	return &engine.Family{
		Name: "clash-words", Bound: fmt.Sprintf("all pairs of the %d names a+{a,A,b,_,1}^k, as JSON names of two fields or as name of one and JSON name of the other, each optional or not, RIDL and JSON", len(ns)),
		Run: func(x *engine.X, w *engine.W) {
			a, b := "a"+ns[x.Choose(len(ns))], "a"+ns[x.Choose(len(ns))]
			how, opt := x.Choose(3), x.Choose(4)
			runBoth(w, func() *Doc {
				f := []Field{{Name: "first", T: N("int"), Opt: opt&1 != 0, Meta: []Meta{{Key: "json", Val: W(a)}}}, {Name: "second", T: L(N("string")), Opt: opt&2 != 0, Meta: []Meta{{Key: "json", Val: W(b)}}}}
				switch how {
				case 1:
					f[0].Name, f[0].Meta = a, nil
				case 2:
					f[1].Name, f[1].Meta = b, nil
				}
				return NewDoc(&Struct{Name: "St", Fields: f})
			})
		},
	}
}

// p27Fields: a clash is found at any distance, and names are per struct.
func p27Fields(w *engine.W) *engine.Family {
	max := engine.Pick(w, 12, 25)
	return &engine.Family{
		Name: "distance", Bound: fmt.Sprintf("structs of up to %d fields where the JSON name of one is the name, the JSON name or the overridden name of another, in the same or another case, in the same or another struct", max),
		Run: func(x *engine.X, w *engine.W) {
			n := 2 + x.Choose(max-1)
			i := x.Choose(n)
			j := x.Choose(n)
			if i == j {
				return
			}
			how, other, up := x.Choose(4), x.Bool(), x.Bool()
			runBoth(w, func() *Doc {
				mk := func() []Field {
					var fs []Field
					for k := 0; k < n; k++ {
						fs = append(fs, Field{Name: fmt.Sprintf("f%d", k), T: N("int")})
					}
					return fs
				}
				a := mk()
				b := a
				if other {
					b = mk()
				}
				cs := func(s string) string {
					if up {
						return strings.ToUpper(s)
					}
					return s
				}
				switch how {
				case 0: // name of another
					a[i].Meta = []Meta{{Key: "json", Val: W(cs(fmt.Sprintf("f%d", j)))}}
				case 1: // JSON name of another
					a[i].Meta = []Meta{{Key: "json", Val: W(cs("same"))}}
					b[j].Meta = []Meta{{Key: "json", Val: W("same")}}
				case 2: // overridden name of another
					a[i].Meta = []Meta{{Key: "json", Val: W(cs(fmt.Sprintf("f%d", j)))}}
					b[j].Meta = []Meta{{Key: "json", Val: W("else")}}
				case 3: // swapped
					a[i].Meta = []Meta{{Key: "json", Val: W(cs(fmt.Sprintf("f%d", j)))}}
					b[j].Meta = []Meta{{Key: "json", Val: W(cs(fmt.Sprintf("f%d", i)))}}
				}
				d := NewDoc(&Struct{Name: "St", Fields: a})
				if other {
					d.Add(&Struct{Name: "Su", Fields: b})
				}
				return d
			})
		},
	}
}

// p27Places: metadata where none may stand.
func p27Places() *engine.Family {
	before := []string{"struct St", "struct St\n  - f: int", "type Al: int", "enum En: int", "enum En: int\n  - A", "error 1 Ea \"a\"", "service Sv", "service Sv\n  - Me()", "name = x", "struct St\n  - f: int\n    + a = b", "type Al: int\n  + a = b", ""}
	good := map[int]bool{1: true, 2: true, 9: true, 10: true}
	metas := []string{"+ k = v", "+ k=v", "+k = v", "+ k", "+ k =", "+ = v", "+", "+ k v", "+ k = v w", "+ k = v # c", "++ k = v", "+ k.l = v", "+ k. = v", "+ .k = v", "+ k..l = v", "+ k = = v", "+ \"k\" = v", "- + k = v", "+ k: v", "+ k = \"v", "+ k = \"v\" w", "+ k = v\"", "+ k = \"\""}
	valid := map[int]bool{0: true, 1: true, 2: true, 9: true, 11: true}
	open := map[int]bool{12: true, 13: true, 14: true, 21: true}
	after := []string{"", "\n", "\n  - g: int\n", "\nstruct Su\n", "\n\n    + k2 = v2\n"}
	return &engine.Family{
		Name: "places", Bound: fmt.Sprintf("%d well- and malformed entries after each of %d lines, before each of %d others", len(metas), len(before), len(after)),
		Run: func(x *engine.X, w *engine.W) {
			b, m, a := x.Choose(len(before)), x.Choose(len(metas)), x.Choose(len(after))
			if open[m] {
				return
			}
			text := "webrpc = v1\nversion = v1\n" + before[b] + "\n    " + metas[m] + after[a]
			if !w.Mine(func() string { return text }) {
				return
			}
			w.Step(1)
			s, err := parseText(text)
			ok := good[b] && valid[m]
			if a == 2 && (b == 2 || b == 10) {
				ok = false // a field after an alias
			}
			w.State(fmt.Sprint(ok, b, m, a))
			if ok != (err == nil) {
				w.Fail("places", "accepted %v, want %v: %v", err == nil, ok, err)
				return
			}
			if !ok {
				return
			}
			t := Real(s).Types[0]
			kv := t.Meta
			if t.Kind == "struct" {
				kv = t.Fields[0].Meta
			}
			got := fmt.Sprint(kv)
			var want []KV
			if b >= 9 {
				want = append(want, KV{"a", "b"})
			}
			k := "k"
			if m == 11 {
				k = "k.l"
			}
			want = append(want, KV{k, "v"})
			if a == 4 {
				want = append(want, KV{"k2", "v2"})
			}
			if got != fmt.Sprint(want) {
				w.Fail("differs", "entries %v, want %v", got, want)
			}
		},
	}
}

// p27Raw: JSON metadata of all shapes: entries with several keys, values that are
// not strings.
func p27Raw() *engine.Family {
	vals := []string{`"v"`, `""`, "1", "1.5", "true", "null", "[]", `["a"]`, "{}", `{"a":{"b":1}}`}
	keys := []string{"k", "json", "go.tag", "", "json.x"}
	return &engine.Family{
		Name: "json-shapes", Bound: fmt.Sprintf("all entries of 0..2 keys of %d with %d kinds of values, on a field or an alias, in JSON; kept exactly, and read back from print", len(keys), len(vals)),
		Run: func(x *engine.X, w *engine.W) {
			n := x.Choose(3)
			entry := "{"
			ok := true
			alias := x.Bool()
			seen := map[string]bool{}
			for i := 0; i < n; i++ {
				k, v := keys[x.Choose(len(keys))], x.Choose(len(vals))
				if i > 0 {
					entry += ","
				}
				entry += fmt.Sprintf("%q:%s", k, vals[v])
				if k == "json" && v != 0 && !alias {
					ok = false
				}
				if seen[k] {
					return
				}
				seen[k] = true
			}
			entry += "}"
			meta := `"meta":[{"first":"1"},` + entry + `,{"last":"2"}]`
			text := `{"webrpc":"v1","name":"x","version":"v1","types":[{"kind":"struct","name":"St","fields":[{"name":"f","type":"int",` + meta + `},{"name":"g","type":"int"}]}]}`
			if alias {
				text = `{"webrpc":"v1","name":"x","version":"v1","types":[{"kind":"alias","name":"Al","type":"int",` + meta + `}]}`
			}
			if !w.Mine(func() string { return text }) {
				return
			}
			w.Step(1)
			s, err := parseJSON(text)
			w.State(entry)
			if ok != (err == nil) {
				w.Fail("json-shapes", "accepted %v, want %v: %v", err == nil, ok, err)
				return
			}
			if !ok {
				return
			}
			var want any
			json.Unmarshal([]byte("{"+meta+"}"), &want)
			for round := 0; round < 2; round++ {
				var got any
				ms := s.Types[0].Meta
				if !alias {
					ms = s.Types[0].Fields[0].Meta
					if len(s.Types[0].Fields[1].Meta) != 0 || len(s.Types[0].Meta) != 0 {
						w.Fail("leak", "metadata shows up elsewhere")
					}
				}
				b, err := json.Marshal(ms)
				if err != nil {
					w.Fail("print", "can't print: %v", err)
					return
				}
				json.Unmarshal(b, &got)
				if a, b := fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want.(jm)["meta"]); a != b {
					w.Fail("differs", "round %d: entries %s, want %s", round, a, b)
					return
				}
				out, err := s.ToJSON()
				if err != nil {
					w.Fail("print", "can't print: %v", err)
					return
				}
				if s, err = parseJSON(out); err != nil {
					w.Fail("reread", "printed schema rejected: %v", err)
					return
				}
			}
		},
	}
}

func p27Counts(w *engine.W) *engine.Family {
	max := engine.Pick(w, 60, 400)
	return &engine.Family{
		Name: "counts", Bound: fmt.Sprintf("0..%d entries on the first, middle or last field or alias, RIDL and JSON", max),
		Run: func(x *engine.X, w *engine.W) {
			n, at := x.Choose(max+1), x.Choose(6)
			runBoth(w, func() *Doc {
				var ms []Meta
				for i := 0; i < n; i++ {
					ms = append(ms, Meta{Key: fmt.Sprintf("k%d", i%7), Val: W(fmt.Sprintf("v%d", i))})
				}
				fs := []Field{{Name: "a", T: N("int")}, {Name: "b", T: N("int")}, {Name: "c", T: N("int")}}
				as := []any{&Alias{Name: "Aa", T: N("int")}, &Alias{Name: "Ab", T: N("int")}, &Alias{Name: "Ac", T: N("int")}}
				if at < 3 {
					fs[at].Meta = ms
				} else {
					as[at-3].(*Alias).Meta = ms
				}
				return NewDoc(as...).Add(&Struct{Name: "St", Fields: fs})
			})
		},
	}
}

// p27Unquoted: a value without quotes reaches to the next white space.
func p27Unquoted(w *engine.W) *engine.Family {
	vs := words([]string{"a", "1", ",", "/", "*", "=", ":", "@", "[", "]", "(", ")", "{", "}", "<", ">", "+", "-", ".", "?", "!", "$", "%", "^", "&", "'", ";", "|", "~", "\u00e9", "\u4e16"}, 1, engine.Pick(w, 2, 3))
	vs = append(vs, "id,omitempty", "github.com/foo/bar/v2", "*big.Int", "[]byte", "map[string]*pkg.T", "a=b=c", "x:y:z", "=>", "stream", "-,", "@me", "{a:b}", "func(x)T", "https://x.y/z?q=1&r=%20", "1.5", "-0", "a.b.c.d", "...", "?:", "<T>", "é世", "a,b,c,d,e,f")
	after := []string{"", " ", "\t", " # c", "\t#c"}
	return &engine.Family{
		Name: "unquoted", Bound: fmt.Sprintf("%d values without quotes, on fields and aliases, with %d endings of the line", len(vs), len(after)),
		Run: func(x *engine.X, w *engine.W) {
			v := vs[x.Choose(len(vs))]
			a := after[x.Choose(len(after))]
			first := x.Bool()
			doc := func(v Lit) *Doc {
				m := []Meta{{Key: "go.tag.db", Val: v}, {Key: "z", Val: W("z")}}
				if !first {
					m = []Meta{{Key: "z", Val: W("z")}, {Key: "go.tag.db", Val: v}}
				}
				return NewDoc(&Alias{Name: "Aa", T: N("int"), Meta: m}, &Struct{Name: "St", Fields: []Field{{Name: "f", T: N("int"), Meta: m}, {Name: "g", T: N("int")}}})
			}
			text := strings.ReplaceAll(doc(W("VALUE0")).RIDL(), "VALUE0", v+a)
			if w.Mine(func() string { return text }) {
				same(w, doc(Q(v)), text)
			}
		},
	}
}

// p27Many: metadata belongs to the line above it, however many lines there are.
func p27Many(w *engine.W) *engine.Family {
	max := engine.Pick(w, 150, 600)
	return &engine.Family{
		Name: "many", Bound: fmt.Sprintf("1..%d fields or aliases, each, every second, only the last or only the middle one with metadata, RIDL and JSON", max),
		Run: func(x *engine.X, w *engine.W) {
			n, k := 1+x.Choose(max), x.Choose(4)
			alias := x.Bool()
			runBoth(w, func() *Doc {
				d, s := NewDoc(), &Struct{Name: "St"}
				for i := 0; i < n; i++ {
					var m []Meta
					if k == 0 || k == 1 && i%2 == 1 || k == 2 && i == n-1 || k == 3 && i == n/2 {
						m = []Meta{{Key: "k", Val: W(fmt.Sprintf("v%d", i))}, {Key: "l.m", Val: Q("w w")}}
					}
					if alias {
						d.Add(&Alias{Name: fmt.Sprintf("A%d", i), T: N("int"), Meta: m})
					} else {
						s.Fields = append(s.Fields, Field{Name: fmt.Sprintf("f%d", i), T: N("int"), Opt: i%3 == 0, Meta: m})
					}
				}
				return d.Add(s)
			})
		},
	}
}

func p27Layout(w *engine.W) *engine.Family {
	b := engine.Pick(w, 2, 4)
	d := NewDoc(&Alias{Name: "Aa", T: N("int"), Meta: []Meta{{Key: "k.l", Val: W("v")}, {Key: "m", Val: Q("x y")}}}, &Struct{Name: "St", Fields: []Field{{Name: "f", T: N("int"), Opt: true, Meta: []Meta{{Key: "json", Val: W("ff")}, {Key: "k.l.m", Val: W("v")}}}, {Name: "g", T: N("int")}}})
	return &engine.Family{
		Name: "layout", Budget: b, Bound: fmt.Sprintf("every combination of alternatives at up to %d places of a document with metadata", b),
		Run: func(x *engine.X, w *engine.W) {
			text := d.Layout(func(_ byte, n int) int { return x.Dev(n) })
			if w.Mine(func() string { return text }) {
				same(w, d, text)
			}
		},
	}
}

// p27Import: metadata of imported definitions.
func p27Import() *engine.Family {
	return &engine.Family{
		Name: "imports", Bound: "all pairs of sequences of up to 2 entries on a field and an alias of an imported file, and up to 1 on those of the importing file",
		Run: func(x *engine.X, w *engine.W) {
			a, b, c, d := p27Pick(x, 2), p27Pick(x, 1), p27Pick(x, 1), p27Pick(x, 1)
			build := func() Files {
				return Files{
					"a.ridl":   NewDoc(&Imp{Path: W("lib.ridl")}, &Alias{Name: "Aa", T: N("Ll"), Meta: c}, &Struct{Name: "St", Fields: []Field{{Name: "f", T: N("int"), Meta: d}}}),
					"lib.ridl": NewDoc(&Alias{Name: "Ll", T: N("int"), Meta: b}, &Struct{Name: "Ls", Fields: []Field{{Name: "f", T: N("int"), Meta: a}}}),
				}
			}
			if w.Mine(func() string { return build().String() }) {
				f := build()
				want, ok, _ := f.Expect("a.ridl")
				s, err := parseFS(f.fs(), "a.ridl")
				judge(w, s, err, want, ok)
			}
		},
	}
}

package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

func init() {
	// Another process computes hashes of the files named on its command line.
	if len(os.Args) > 1 && os.Args[1] == "-hash-files" {
		for _, f := range os.Args[2:] {
			b, err := os.ReadFile(f)
			if err != nil {
				os.Exit(3)
			}
			s, err := parseText(string(b))
			if err != nil {
				fmt.Println("error", err)
				continue
			}
			h, err := s.SchemaHash()
			fmt.Println(h, err)
		}
		os.Exit(0)
	}
	register(&engine.Prop{
		ID:   "P07",
		Rule: "An execution computes the hash of one schema (repeatedly, re-parsed, in another layout, or in another process) and compares it with that of the unedited schema or earlier schemas: equal exactly when the schemas are; a state is a distinct schema.",
		Assumptions: []string{
			"two schemas differ when their complete dumps (harness/core/dump.go) differ",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p07Bijection(w), p07Edits(w), p07EditPairs(w), p07Layout(w), p07Process(w), p07Ops(), p07Changes(w), p07Texts(w), p07Splits(w)}
		},
	})
}

// hashOf computes the hash of a schema and checks that doing so is repeatable and
// leaves the schema alone.
func hashOf(w *engine.W, s *schema.WebRPCSchema) (string, bool) {
	before := Real(s).String()
	h, err := s.SchemaHash()
	w.Step(1)
	if err != nil || h == "" {
		w.Fail("no-hash", "no hash: %q, %v", h, err)
		return "", false
	}
	for i := 0; i < 2; i++ {
		if h2, err := s.SchemaHash(); err != nil || h2 != h {
			w.Fail("unstable", "computing the hash again gives %s instead of %s (%v)", h2, h, err)
			return "", false
		}
	}
	if after := Real(s).String(); after != before {
		w.Fail("mutated", "computing the hash changed the schema:\n%s", diff(before, after))
		return "", false
	}
	return h, true
}

// p07Bijection keeps the hashes of all documents of the worker's share and
// demands that equal hashes and equal schemas go together.
func p07Bijection(w *engine.W) *engine.Family {
	k := engine.Pick(w, 3, 4)
	byHash, byDump := map[string]string{}, map[string]string{}
	return &engine.Family{
		Name: "bijection", Bound: fmt.Sprintf("all sequences of up to %d definitions out of a menu of %d, compared with each other in each worker's share", k, menuSize),
		Run: func(x *engine.X, w *engine.W) {
			n := x.Choose(k + 1)
			d := NewDoc(support()...)
			for i := 0; i < n; i++ {
				// the name depends on the construct's place, so that equal
				// schemas come up in different shapes
				d.Add(menu(x.Choose(menuSize), i))
			}
			if !w.Mine(func() string { return d.RIDL() }) {
				return
			}
			s, err := parseText(d.RIDL())
			if err != nil {
				w.Step(1)
				return
			}
			h, ok := hashOf(w, s)
			if !ok {
				return
			}
			dump := shortSum(Real(s).String())
			w.State(dump)
			if old, seen := byHash[h]; seen && old != dump {
				w.Fail("collision", "two different schemas have hash %s", h)
			}
			if old, seen := byDump[dump]; seen && old != h {
				w.Fail("two-hashes", "one schema has hashes %s and %s", old, h)
			}
			if len(byHash) < 300000 {
				byHash[h], byDump[dump] = dump, h
			}
		},
	}
}

func shortSum(s string) string {
	h := sha1.Sum([]byte(s))
	return hex.EncodeToString(h[:12])
}

// compareEdit parses an edited document in both forms and demands that its hash
// differs from the base exactly when its schema does.
func compareEdit(w *engine.W, text string, json bool, baseDump, baseHash string) {
	var s *schema.WebRPCSchema
	var err error
	if json {
		s, err = parseJSON(text)
	} else {
		s, err = parseText(text)
	}
	w.Step(1)
	if err != nil {
		w.State("rejected")
		return
	}
	h, ok := hashOf(w, s)
	if !ok {
		return
	}
	dump := Real(s).String()
	w.State(dump)
	if (dump == baseDump) != (h == baseHash) {
		w.Fail("edit", "schemas equal: %v, hashes equal: %v\n%s", dump == baseDump, h == baseHash, diff(baseDump, dump))
	}
}

func baseOf(d *Doc, json bool) (dump, hash string) {
	var s *schema.WebRPCSchema
	var err error
	if json {
		s, err = parseJSON(d.JSON(false))
	} else {
		s, err = parseText(d.RIDL())
	}
	if err != nil {
		return "unparsable", ""
	}
	hash, _ = s.SchemaHash()
	return Real(s).String(), hash
}

func p07Edits(w *engine.W) *engine.Family {
	n := mutate(rich(), -1)
	var dump, hash [2]string
	dump[0], hash[0] = baseOf(rich(), false)
	dump[1], hash[1] = baseOf(rich(), true)
	return &engine.Family{
		Name: "edits", Bound: fmt.Sprintf("all %d single edits of a document with every construct, as RIDL and JSON, against the unedited one", n),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(n)
			form := x.Choose(2)
			d := rich()
			mutate(d, k)
			if form == 0 && !ridlable(d) || form == 1 && !jsonable(d) {
				return
			}
			text := func() string {
				if form == 1 {
					return d.JSON(false)
				}
				return d.RIDL()
			}
			if w.Mine(text) {
				compareEdit(w, text(), form == 1, dump[form], hash[form])
			}
		},
	}
}

func p07EditPairs(w *engine.W) *engine.Family {
	var ks []int
	for k := 0; k < menuSize; k++ {
		if w.Thorough() || mutate(smallDoc(k), -1) <= 125 {
			ks = append(ks, k)
		}
	}
	type base struct{ dump, hash [2]string }
	bases := map[[2]int]*base{}
	return &engine.Family{
		Name: "edit-pairs", Bound: fmt.Sprintf("every edit of every singly edited small document (%d documents) against the singly edited one", len(ks)),
		Run: func(x *engine.X, w *engine.W) {
			k := ks[x.Choose(len(ks))]
			n := mutate(smallDoc(k), -1)
			i := x.Choose(n)
			d := smallDoc(k)
			mutate(d, i)
			j := x.Choose(mutate(d, -1))
			form := x.Choose(2)
			if !w.Mine(func() string { mutate(d, j); return d.RIDL() }) {
				return
			}
			b := bases[[2]int{k, i}]
			if b == nil {
				b = &base{}
				if ridlable(d) {
					b.dump[0], b.hash[0] = baseOf(d, false)
				}
				if jsonable(d) {
					b.dump[1], b.hash[1] = baseOf(d, true)
				}
				bases[[2]int{k, i}] = b
			}
			if b.hash[form] == "" {
				return
			}
			mutate(d, j)
			if form == 0 && ridlable(d) {
				compareEdit(w, d.RIDL(), false, b.dump[0], b.hash[0])
			} else if form == 1 && jsonable(d) {
				compareEdit(w, d.JSON(false), true, b.dump[1], b.hash[1])
			}
		},
	}
}

func p07Layout(w *engine.W) *engine.Family {
	docs := append(smallDocs(), rich())
	hashes := make([]string, len(docs))
	dumps := make([]string, len(docs))
	for i, d := range docs {
		dumps[i], hashes[i] = baseOf(d, false)
	}
	return &engine.Family{
		Name: "layouts", Budget: 2, Bound: "every layout differing at up to 2 places (1 of the largest document) that adds no comment",
		Run: func(x *engine.X, w *engine.W) {
			di := x.Choose(len(docs))
			dev := 0
			text := docs[di].Layout(func(k byte, n int) int {
				if k == 'a' || k == 'e' || k == 'l' {
					n = 2 // no comments
				}
				if di == len(docs)-1 && dev > 0 || k == 'e' { // the largest document: one place
					return 0
				}
				c := x.Dev(n)
				if c != 0 {
					dev++
				}
				return c
			})
			if !w.Mine(func() string { return text }) {
				return
			}
			s, err := parseText(text)
			if err != nil {
				w.Fail("rejected", "%v", err)
				return
			}
			h, ok := hashOf(w, s)
			w.State(text)
			// a blank line after a doc comment changes the schema's comments
			if same := Real(s).String() == dumps[di]; ok && same != (h == hashes[di]) {
				w.Fail("layout", "the layout changes the schema: %v, the hash: %v", !same, h != hashes[di])
			}
		},
	}
}

// p07Process has another process compute the same hashes.
func p07Process(w *engine.W) *engine.Family {
	docs := append(smallDocs(), rich())
	for _, dim := range dims {
		docs = append(docs, NewDoc(dim.build(9, 0)...))
	}
	n := engine.Pick(w, 6, 40)
	return &engine.Family{
		Name: "processes", Bound: fmt.Sprintf("%d documents hashed by %d other processes each", len(docs), n),
		Run: func(x *engine.X, w *engine.W) {
			i := x.Choose(n)
			if !w.Mine(func() string { return fmt.Sprintf("process %d", i) }) {
				return
			}
			args := []string{"-hash-files"}
			for k, d := range docs {
				f := filepath.Join(w.Dir, fmt.Sprintf("h%d.ridl", k))
				_ = os.WriteFile(f, []byte(d.RIDL()), 0o600)
				args = append(args, f)
			}
			self, _ := os.Executable()
			cmd := exec.Command(self, args...)
			cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", 1+i%8))
			out, err := cmd.Output()
			if err != nil {
				w.Fail("process", "%v: %s", err, out)
				return
			}
			lines := strings.Split(strings.TrimSpace(string(out)), "\n")
			for k, d := range docs {
				s, err := parseText(d.RIDL())
				if err != nil {
					w.Fail("rejected", "%v", err)
					return
				}
				h, ok := hashOf(w, s)
				if !ok {
					return
				}
				w.State(h)
				if k >= len(lines) || lines[k] != h+" <nil>" {
					w.Fail("process-differs", "document %d has hash %s here and %q in another process", k, h, lines)
					return
				}
			}
		},
	}
}

// p07Ops uses a schema between computing its hash.
func p07Ops() *engine.Family {
	ops := []func(s *schema.WebRPCSchema){
		func(s *schema.WebRPCSchema) { _, _ = s.ToJSON() },
		func(s *schema.WebRPCSchema) { _ = s.Validate() },
		func(s *schema.WebRPCSchema) { schema.SchemaUsesBigInts(s) },
		func(s *schema.WebRPCSchema) { schema.SchemaBigIntFieldsByType(s) },
		func(s *schema.WebRPCSchema) { s.GetTypeByName("Item"); s.GetServiceByName("sv10") },
		func(s *schema.WebRPCSchema) {
			for _, t := range s.Types {
				t.RequiredFields()
				_ = t.Type.String()
			}
		},
	}
	return &engine.Family{
		Name: "after-use", Bound: fmt.Sprintf("all sequences of up to 3 out of %d read-only operations before and between hash computations", len(ops)),
		Run: func(x *engine.X, w *engine.W) {
			n := x.Choose(4)
			var seq []int
			for i := 0; i < n; i++ {
				seq = append(seq, x.Choose(len(ops)))
			}
			json := x.Bool()
			if !w.Mine(func() string { return fmt.Sprint("operations ", seq, " on\n", rich().RIDL()) }) {
				return
			}
			s, err := parseText(rich().RIDL())
			if json && err == nil {
				s, err = parseJSON(rich().JSON(false))
			}
			if err != nil {
				w.Fail("rejected", "%v", err)
				return
			}
			before := Real(s).String()
			h, ok := hashOf(w, s)
			if !ok {
				return
			}
			for _, o := range seq {
				ops[o](s)
				w.Step(1)
				h2, ok := hashOf(w, s)
				if !ok {
					return
				}
				w.State(h2)
				if h2 != h || Real(s).String() != before {
					w.Fail("use", "using the schema changed it or its hash:\n%s", diff(before, Real(s).String()))
					return
				}
			}
		},
	}
}

// exported copies what is exported of a value, keeping shared pointers shared.
func exported(v reflect.Value, seen map[uintptr]reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		if c, ok := seen[v.Pointer()]; ok && c.Type() == v.Type() {
			return c
		}
		c := reflect.New(v.Type().Elem())
		seen[v.Pointer()] = c
		c.Elem().Set(exported(v.Elem(), seen))
		return c
	case reflect.Struct:
		c := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				c.Field(i).Set(exported(v.Field(i), seen))
			}
		}
		return c
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(exported(v.Index(i), seen))
		}
		return c
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			c.SetMapIndex(k, exported(v.MapIndex(k), seen))
		}
		return c
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type()).Elem()
		c.Set(exported(v.Elem(), seen))
		return c
	}
	return v
}

// p07Changes changes a schema between hash computations, as webrpc-gen and its
// templates do.
func p07Changes(w *engine.W) *engine.Family {
	type op struct {
		name string
		do   func(s *schema.WebRPCSchema) *schema.WebRPCSchema
	}
	on := func(name string, do func(s *schema.WebRPCSchema)) op {
		return op{name, func(s *schema.WebRPCSchema) *schema.WebRPCSchema { do(s); return s }}
	}
	ops := []op{
		{"match-services", func(s *schema.WebRPCSchema) *schema.WebRPCSchema { return schema.MatchServices(s, []string{"Sa"}) }},
		{"match-annotation", func(s *schema.WebRPCSchema) *schema.WebRPCSchema {
			return schema.MatchMethodsWithAnnotations(s, map[string]string{"a": ""})
		}},
		{"ignore-annotation", func(s *schema.WebRPCSchema) *schema.WebRPCSchema {
			return schema.IgnoreMethodsWithAnnotations(s, map[string]string{"b": "v"})
		}},
		{"tree-shake", func(s *schema.WebRPCSchema) *schema.WebRPCSchema {
			return schema.MethodTreeShake(s, []string{"Sa", "Sb"})
		}},
		on("name", func(s *schema.WebRPCSchema) { s.SchemaName += "x" }),
		on("version", func(s *schema.WebRPCSchema) { s.SchemaVersion += "1" }),
		on("basepath", func(s *schema.WebRPCSchema) { s.BasePath += "/y" }),
		on("restored", func(s *schema.WebRPCSchema) { s.SchemaName, s.SchemaVersion, s.BasePath = "test", "v1.0.0", "" }),
		on("type", func(s *schema.WebRPCSchema) {
			s.Types = append(s.Types, &schema.Type{Kind: "struct", Name: fmt.Sprintf("New%d", len(s.Types))})
		}),
		on("field", func(s *schema.WebRPCSchema) {
			for _, t := range s.Types {
				for _, f := range t.Fields {
					f.Optional = !f.Optional
					return
				}
			}
		}),
		on("field-type", func(s *schema.WebRPCSchema) {
			for _, t := range s.Types {
				for _, f := range t.Fields {
					if f.Type != nil && f.Type.Expr == "string" {
						f.Type = &schema.VarType{Expr: "bool", Type: schema.T_Bool}
						return
					}
				}
			}
		}),
		on("meta", func(s *schema.WebRPCSchema) {
			s.Types[0].Meta = append(s.Types[0].Meta, schema.TypeFieldMeta{"k": "v"})
		}),
		on("error", func(s *schema.WebRPCSchema) { s.Errors[0].Message += "!" }),
		on("drop-error", func(s *schema.WebRPCSchema) {
			if len(s.Errors) > 1 {
				s.Errors = s.Errors[1:]
			}
		}),
		on("method", func(s *schema.WebRPCSchema) {
			for _, v := range s.Services {
				for _, m := range v.Methods {
					m.Name += "x"
					return
				}
			}
		}),
		on("annotation", func(s *schema.WebRPCSchema) {
			for _, v := range s.Services {
				for _, m := range v.Methods {
					if a := m.Annotations["b"]; a != nil {
						a.Value += "w"
						return
					}
				}
			}
		}),
		on("swap", func(s *schema.WebRPCSchema) {
			n := len(s.Types)
			s.Types[0], s.Types[n-1] = s.Types[n-1], s.Types[0]
		}),
		on("validate", func(s *schema.WebRPCSchema) { _ = s.Validate() }),
		on("json", func(s *schema.WebRPCSchema) { _, _ = s.ToJSON() }),
	}
	doc := NewDoc(
		&Enum{Name: "En", T: "string", Mem: []Member{{Name: "A"}}},
		&Struct{Name: "St", Fields: []Field{{Name: "x", T: N("string")}, {Name: "y", T: L(N("Su"))}}},
		&Struct{Name: "Su", Fields: []Field{{Name: "z", T: N("En")}}},
		&Err{Code: "1", Name: "Ea", Msg: Q("a")}, &Err{Code: "2", Name: "Eb", Msg: Q("b")},
		&Svc{Name: "Sa", Methods: []Method{{Name: "Ma", Ann: []Ann{{Name: "a"}}, In: []Arg{{Name: "q", T: N("St")}}}, {Name: "Mb", Ann: []Ann{{Name: "b", Val: lp(W("v"))}}}}},
		&Svc{Name: "Sb", Methods: []Method{{Name: "Mc", Ann: []Ann{{Name: "a"}, {Name: "b", Val: lp(W("u"))}}, HasOut: true, Out: []Arg{{Name: "r", T: N("int")}}}}},
	)
	k := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "after-change", Bound: fmt.Sprintf("all sequences of up to %d out of %d operations that filter, edit or use a schema, its hash computed before and after each, from both forms", k, len(ops)),
		Run: func(x *engine.X, w *engine.W) {
			var seq []op
			for n := x.Choose(k + 1); n > 0; n-- {
				seq = append(seq, ops[x.Choose(len(ops))])
			}
			json := x.Bool()
			if !w.Mine(func() string {
				names := []string{}
				for _, o := range seq {
					names = append(names, o.name)
				}
				return fmt.Sprint("json ", json, ", operations ", names, " on\n", doc.RIDL())
			}) {
				return
			}
			s, err := parseText(doc.RIDL())
			if json && err == nil {
				s, err = parseJSON(doc.JSON(false))
			}
			if err != nil {
				w.Fail("rejected", "%v", err)
				return
			}
			byDump, byHash := map[string]string{}, map[string]string{}
			look := func() bool {
				h, ok := hashOf(w, s)
				if !ok {
					return false
				}
				dump := Real(s).String()
				w.State(dump)
				fresh := exported(reflect.ValueOf(s), map[uintptr]reflect.Value{}).Interface().(*schema.WebRPCSchema)
				if h2, ok := hashOf(w, fresh); !ok || h2 != h {
					w.Fail("stale", "the schema's hash is %s after the operations, an equal schema's %s", h, h2)
					return false
				}
				if old, ok := byDump[dump]; ok && old != h {
					w.Fail("two-hashes", "the same schema had hash %s and now has %s", old, h)
					return false
				}
				if old, ok := byHash[h]; ok && old != dump {
					w.Fail("unchanged", "the hash remained although the schema changed:\n%s", diff(old, dump))
					return false
				}
				byDump[dump], byHash[h] = h, dump
				return true
			}
			if !look() {
				return
			}
			for _, o := range seq {
				if s = o.do(s); !look() {
					return
				}
			}
		},
	}
}

// distinct demands that hashes are equal exactly when dumps are.
func distinct(w *engine.W, what []string, docs []*Doc, json bool) {
	type seen struct{ dump, what string }
	byHash := map[string]seen{}
	byDump := map[string]string{}
	for i, d := range docs {
		dump, hash := baseOf(d, json)
		w.Step(1)
		if hash == "" {
			continue
		}
		if s, ok := byHash[hash]; ok && s.dump != dump {
			w.Fail("same-hash", "%q and %q have the same hash:\n%s", s.what, what[i], diff(s.dump, dump))
			return
		}
		if h, ok := byDump[dump]; ok && h != hash {
			w.Fail("other-hash", "%q: equal schemas with hashes %s and %s", what[i], h, hash)
			return
		}
		byHash[hash], byDump[dump] = seen{dump, what[i]}, hash
		w.State(hash)
	}
}

// p07Texts: values which are nearly the same.
func p07Texts(w *engine.W) *engine.Family {
	long := strings.Repeat("long text, ", 7000)
	vals := []string{
		"a b", "a  b", "a   b", " a b", "a b ", "a\tb", "a\t b", "a\u00a0b", "a\u2003b", "a\u3000b", "a\u200bb", "ab", "A b", "a B", "a\nb", "a\n\nb", "a\"b", "a'b", "a<b", "a>b", "a&b", "a&amp;b", "a&lt;b",
		"a\u2028b", "a\u2029b", "a\ufffdb", "a\ufeffb", "a\x00b", "a\x01b", "a\x7fb", "a\rb", "a\x1bb", "a/b", "a//b", "a,b", "a, b", "a:b", "a: b", "a;b", "a=b", "a{}b", "a[]b", "a%20b", "a+b", "a_b", "a-b", "a.b", "ab.", "a#b", "a@b", "a?b", "a!b", "a|b",
		"é", "e\u0301", "É", "ß", "ss", "SS", "ſ", "s", "ı", "i", "I", "İ", "\u2126", "\u03a9", "\U0001F600", "\U0001F601",
		"1", "01", "1.0", "1e0", "+1", "-1", "1_0", "10", "0x1", "true", "false", "True", "null", "nil", "{}", "[]", "[ ]", "0", "00",
		"\n", "\t", "\n\n", " ", "  ", "\"", "\"\"", "ab\n", "\nab", "b a", "ba", "aab", "abb", "abab",
		long, long + "x", long + "y", "x" + long, long + " ", long[:len(long)-1], long[:40000] + "#" + long[40001:],
	}
	for i := 1; i <= 40; i++ {
		vals = append(vals, strings.Repeat("z", i))
	}
	return &engine.Family{
		Name: "texts", Bound: fmt.Sprintf("all pairs of %d texts which are nearly the same, at each of %d places, as RIDL and JSON", len(vals), p17Places),
		Run: func(x *engine.X, w *engine.W) {
			place := x.Choose(p17Places)
			json := x.Bool()
			if !w.Mine(func() string { return fmt.Sprint(place, json) }) {
				return
			}
			var docs []*Doc
			for _, v := range vals {
				docs = append(docs, p17Doc(Q(v), place))
			}
			distinct(w, vals, docs, json)
		},
	}
}

// p07Splits: the same text over two places.
func p07Splits(w *engine.W) *engine.Family {
	return &engine.Family{
		Name: "splits", Bound: "a text of up to 4 characters cut in two over every pair of places, with separators in it",
		Run: func(x *engine.X, w *engine.W) {
			i := x.Choose(p17Places - 1)
			j := i + 1 + x.Choose(p17Places-1-i)
			json := x.Bool()
			if !w.Mine(func() string { return fmt.Sprint(i, j, json) }) {
				return
			}
			var docs []*Doc
			var what []string
			for _, t := range words([]string{"a", "b", ",", "\""}, 2, 4) {
				for k := 1; k < len(t); k++ {
					docs = append(docs, p17Docs(map[int]Lit{i: Q(t[:k]), j: Q(t[k:])}))
					what = append(what, t[:k]+" | "+t[k:])
				}
			}
			distinct(w, what, docs, json)
		},
	}
}

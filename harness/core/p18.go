package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P18",
		Rule: "An execution reads one text as a JSON schema, under a crash and hang monitor; when it is accepted, the schema must satisfy the validity rules and every operation on it must work. A state is a distinct error message or printed schema.",
		Assumptions: []string{
			"the schema returned together with an error is not a result",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p18Single(), p18Double(w), p18Values(w), p18Tokens(w), p18Bytes(w), p18Deep(w), p18Docs(w), p18Dup(), p18Lists(w)}
		},
	})
}

// jn is a JSON value whose objects keep their order.
type jn struct {
	raw  string // leaf text, when kind is 0
	kind byte   // '{', '[' or 0
	keys []string
	kids []*jn
}

func jparse(dec *json.Decoder) *jn {
	t, err := dec.Token()
	if err != nil {
		panic(err)
	}
	switch v := t.(type) {
	case json.Delim:
		n := &jn{kind: byte(v)}
		for dec.More() {
			if v == '{' {
				k, _ := dec.Token()
				n.keys = append(n.keys, k.(string))
			}
			n.kids = append(n.kids, jparse(dec))
		}
		dec.Token()
		return n
	}
	b, _ := json.Marshal(t)
	return &jn{raw: string(b)}
}

func jtree(text string) *jn { return jparse(json.NewDecoder(strings.NewReader(text))) }

func (n *jn) write(b *bytes.Buffer) {
	switch n.kind {
	case 0:
		b.WriteString(n.raw)
		return
	case '{':
		b.WriteByte('{')
	case '[':
		b.WriteByte('[')
	}
	for i, k := range n.kids {
		if i > 0 {
			b.WriteByte(',')
		}
		if n.kind == '{' {
			fmt.Fprintf(b, "%q:", n.keys[i])
		}
		k.write(b)
	}
	if n.kind == '{' {
		b.WriteByte('}')
	} else {
		b.WriteByte(']')
	}
}

func (n *jn) String() string {
	var b bytes.Buffer
	n.write(&b)
	return b.String()
}

// slots lists every child position of the tree.
type slot struct {
	parent *jn
	i      int
}

func (n *jn) slots() (out []slot) {
	for i, k := range n.kids {
		out = append(out, slot{n, i})
		out = append(out, k.slots()...)
	}
	return
}

var jReplace = []string{"null", "true", "false", "0", "-1", "1.5", "1e400", `""`, `" "`, `"x"`, `"X"`, `"string"`, `"[]string"`, `"map<string,X>"`, `"St"`, `"Al"`, `"En"`, `"enum"`, `"alias"`, `"struct"`, `"BigInt"`, "[]", "{}", "[null]", "[[]]", "[{}]", `{"":null}`, `{"json":"-"}`, `{"name":"x"}`, `[""]`, `["Ea","Ea"]`, `9999999999999999999999`, `"\u0000"`, `"\ud800"`, `400`, `600`}

// edit applies mutation m of a slot: replacement, removal, duplication or renaming.
const jEdits = 40 // more than len(jReplace)+4

func (s slot) edit(m int) {
	p := s.parent
	switch {
	case m < len(jReplace):
		p.kids[s.i] = &jn{raw: jReplace[m]}
	case m == len(jReplace):
		p.kids = append(append([]*jn{}, p.kids[:s.i]...), p.kids[s.i+1:]...)
		if p.kind == '{' {
			p.keys = append(append([]string{}, p.keys[:s.i]...), p.keys[s.i+1:]...)
		}
	case m == len(jReplace)+1:
		p.kids = append(p.kids, p.kids[s.i])
		if p.kind == '{' {
			p.keys = append(p.keys, p.keys[s.i])
		}
	case m == len(jReplace)+2:
		if p.kind == '{' {
			p.keys[s.i] = strings.ToUpper(p.keys[s.i])
		} else {
			p.kids = append([]*jn{{raw: "null"}}, p.kids...)
		}
	case m == len(jReplace)+3:
		p.kids[s.i] = &jn{kind: '[', kids: []*jn{p.kids[s.i]}}
	}
}

func p18Seed() string {
	return NewDoc(
		&Head{Key: "basepath", Val: Q("/b")},
		&Alias{Name: "Al", T: N("string"), Meta: []Meta{{Key: "k", Val: W("v")}}},
		&Enum{Name: "En", T: "int", Mem: []Member{{Name: "A", Cm: Cm{Doc: []string{"c"}}}, {Name: "B", Val: lp(W("7"))}}},
		&Struct{Name: "St", Fields: []Field{{Name: "x", T: M("En", L(N("St"))), Meta: []Meta{{Key: "json", Val: W("xx")}}}, {Name: "y", T: N("Al"), Opt: true}}},
		&Err{Code: "1", Name: "Ea", Msg: Q("a")},
		&Svc{Name: "Sv", Methods: []Method{
			{Name: "Ma", Ann: []Ann{{Name: "a", Val: lp(W("v"))}}, In: []Arg{{Name: "q", T: N("bigint")}}, HasOut: true, Out: []Arg{{Name: "r", T: N("En")}}, Errs: []string{"Ea"}},
			{Name: "Mb", Succ: "St", HasOut: true, SuccOut: "St", SIn: true}}},
	).JSON(false)
}

func p18Small(i int) string {
	return []*Doc{
		NewDoc(&Enum{Name: "En", T: "int", Mem: []Member{{Name: "A"}}}, &Alias{Name: "Al", T: N("En")}),
		NewDoc(&Struct{Name: "St", Fields: []Field{{Name: "x", T: L(N("St")), Meta: []Meta{{Key: "json", Val: W("xx")}}}}}),
		NewDoc(&Err{Code: "1", Name: "Ea", Msg: Q("a")}, &Svc{Name: "Sv", Methods: []Method{{Name: "Ma", Ann: []Ann{{Name: "a", Val: lp(W("v"))}}, In: []Arg{{Name: "q", T: N("int")}}, Errs: []string{"Ea"}}}}),
		NewDoc(&Struct{Name: "St"}, &Svc{Name: "Sv", Methods: []Method{{Name: "Mb", Succ: "St", HasOut: true, SuccOut: "St"}}}),
	}[i].JSON(false)
}

// total reads a text and works on whatever comes back.
func totalJSON(w *engine.W, text string) {
	w.Step(1)
	s, err := schema.ParseSchemaJSON([]byte(text))
	if err != nil {
		if err.Error() == "" {
			w.Fail("empty-error", "the error has no text")
		}
		w.State(err.Error())
		return
	}
	if s == nil {
		w.Fail("nil-schema", "neither schema nor error")
		return
	}
	if bad := invalid(s); bad != "" {
		w.Fail("invalid", "an invalid schema was accepted: %s", bad)
		return
	}
	printed, err := s.ToJSON()
	if err != nil {
		w.Fail("print", "printing failed: %v", err)
		return
	}
	w.State(printed)
	hash, err := s.SchemaHash()
	if err != nil || len(hash) != 40 {
		w.Fail("hash", "hash %q, error %v", hash, err)
	}
	before := Real(s).String()
	if err := s.Validate(); err != nil {
		w.Fail("revalidate", "an accepted schema doesn't validate again: %v", err)
	}
	if after := Real(s).String(); after != before {
		w.Fail("revalidate-changes", "validating again changed the schema:\n%s", diff(before, after))
	}
	if again, err := schema.ParseSchemaJSON([]byte(printed)); err != nil {
		w.Fail("reread", "the printed schema is rejected: %v", err)
	} else if got := Real(again).String(); got != before {
		w.Fail("reread-changes", "the printed schema reads differently:\n%s", diff(before, got))
	}
	uses := schema.SchemaUsesBigInts(s)
	byType := schema.SchemaBigIntFieldsByType(s)
	schema.SchemaBigIntFieldsByType(s, true)
	if len(byType) > 0 && !uses {
		w.Fail("bigint", "bigint fields %v in a schema that uses none", byType)
	}
	if now := Real(s).String(); now != before {
		w.Fail("analysis-changes", "analysing changed the schema:\n%s", diff(before, now))
	}
	var names []string
	for _, t := range s.Types {
		if s.GetTypeByName(t.Name) != t {
			w.Fail("lookup", "type %q is not found by name", t.Name)
		}
		t.RequiredFields()
	}
	for _, v := range s.Services {
		names = append(names, v.Name)
		if s.GetServiceByName(v.Name) != v {
			w.Fail("lookup", "service %q is not found by name", v.Name)
		}
	}
	ops := []func(s *schema.WebRPCSchema) *schema.WebRPCSchema{
		func(s *schema.WebRPCSchema) *schema.WebRPCSchema { return schema.MatchServices(s, names) },
		func(s *schema.WebRPCSchema) *schema.WebRPCSchema { return schema.MatchServices(s, []string{"none"}) },
		func(s *schema.WebRPCSchema) *schema.WebRPCSchema { return schema.MethodTreeShake(s, names) },
		func(s *schema.WebRPCSchema) *schema.WebRPCSchema { return schema.MethodTreeShake(s, nil) },
		func(s *schema.WebRPCSchema) *schema.WebRPCSchema {
			return schema.MatchMethodsWithAnnotations(s, map[string]string{"a": "", "b": "v", "": ""})
		},
		func(s *schema.WebRPCSchema) *schema.WebRPCSchema {
			return schema.IgnoreMethodsWithAnnotations(s, map[string]string{"a": "v", "b": "", "": "x"})
		},
	}
	for i, op := range ops {
		w.Step(1)
		c, err := schema.ParseSchemaJSON([]byte(text))
		if err != nil {
			w.Fail("unstable", "rejected the second time: %v", err)
			return
		}
		out := op(c)
		if out == nil {
			w.Fail("operation", "operation %d returned nothing", i)
			continue
		}
		if _, err := out.ToJSON(); err != nil {
			w.Fail("operation", "the schema can't be printed after operation %d: %v", i, err)
		}
		if _, err := out.SchemaHash(); err != nil {
			w.Fail("operation", "the schema can't be hashed after operation %d: %v", i, err)
		}
		if i == 0 && Real(out).String() != before {
			w.Fail("operation", "keeping all services changed the schema:\n%s", diff(before, Real(out).String()))
		}
		schema.SchemaUsesBigInts(out)
		schema.SchemaBigIntFieldsByType(out)
		out.Validate() // may well fail, when no method is left
	}
}

// invalid names the first validity rule that an accepted schema breaks.
func invalid(s *schema.WebRPCSchema) string {
	if s.WebrpcVersion != "v1" {
		return "webrpc version " + s.WebrpcVersion
	}
	if len(s.Services) > 0 && s.SchemaVersion == "" {
		return "services without a schema version"
	}
	if s.BasePath != "" && (!strings.HasPrefix(s.BasePath, "/") || !strings.HasSuffix(s.BasePath, "/")) {
		return "base path " + s.BasePath
	}
	kind := map[string]string{}
	idx := map[*schema.Type]int{}
	lower := map[string]bool{}
	for i, t := range s.Types {
		if t == nil {
			return "null type"
		}
		l := strings.ToLower(t.Name)
		if !typeNameOK(t.Name) || lower[l] {
			return "type name " + t.Name
		}
		lower[l] = true
		kind[t.Name], idx[t] = t.Kind, i
	}
	vt := func(v *schema.VarType) string {
		if v == nil {
			return "no type"
		}
		tr := realTree(v, idx)
		for _, bad := range []string{"nil", "not-in-schema", "wrong-type", "ambiguous", "without", "with-parts"} {
			if strings.Contains(tr, bad) {
				return "unresolved type " + tr
			}
		}
		return ""
	}
	for _, t := range s.Types {
		switch t.Kind {
		case "alias":
			if b := vt(t.Type); b != "" {
				return "alias " + t.Name + ": " + b
			}
		case "enum":
			if t.Type == nil || t.Type.Expr != "string" && !isInt[t.Type.Expr] {
				return "enum type of " + t.Name
			}
		case "struct":
		default:
			return "kind " + t.Kind
		}
		if t.Kind == "alias" {
			continue
		}
		names := map[string]bool{}
		jsons := map[string]bool{}
		for _, f := range t.Fields {
			if f == nil {
				return "null field"
			}
			l := strings.ToLower(f.Name)
			if !fieldNameOK(f.Name) || names[l] {
				return "field name " + f.Name
			}
			names[l] = true
			if t.Kind == "enum" {
				if f.Value == "" || f.Type != nil {
					return "enum member " + f.Name
				}
				continue
			}
			if b := vt(f.Type); b != "" {
				return "field " + f.Name + ": " + b
			}
			if f.Value != "" {
				return "value of field " + f.Name
			}
			js := f.Name
			for _, m := range f.Meta {
				if v, ok := m["json"]; ok {
					str, isStr := v.(string)
					if !isStr || str != "-" && !fieldNameOK(str) {
						return fmt.Sprintf("json name %v", v)
					}
					if str != "-" {
						js = str
					}
				}
			}
			if jsons[strings.ToLower(js)] {
				return "json name " + js
			}
			jsons[strings.ToLower(js)] = true
		}
	}
	codes, enames, exact := map[int]bool{}, map[string]bool{}, map[string]bool{}
	for _, e := range s.Errors {
		if e == nil {
			return "null error"
		}
		l := strings.ToLower(e.Name)
		if e.Code <= 0 || codes[e.Code] || enames[l] || !errNameOK(e.Name) || e.Message == "" || e.HTTPStatus < 400 || e.HTTPStatus > 599 {
			return fmt.Sprintf("error %+v", *e)
		}
		codes[e.Code], enames[l], exact[e.Name] = true, true, true
	}
	snames := map[string]bool{}
	for _, v := range s.Services {
		if v == nil {
			return "null service"
		}
		if v.Name == "" || snames[strings.ToLower(v.Name)] || len(v.Methods) == 0 {
			return "service " + v.Name
		}
		snames[strings.ToLower(v.Name)] = true
		mn := map[string]bool{}
		for _, m := range v.Methods {
			if m == nil {
				return "null method"
			}
			if m.Name == "" || mn[strings.ToLower(m.Name)] {
				return "method name " + m.Name
			}
			mn[strings.ToLower(m.Name)] = true
			for _, a := range m.Annotations {
				if a == nil {
					return "null annotation"
				}
			}
			for _, as := range [][]*schema.MethodArgument{m.Inputs, m.Outputs} {
				for _, a := range as {
					if a == nil {
						return "null argument"
					}
					if a.Name == "" {
						return "argument without a name"
					}
					if b := vt(a.Type); b != "" {
						return "argument " + a.Name + ": " + b
					}
				}
				if m.Succinct && (len(as) != 1 || kind[as[0].Type.Expr] != "struct") {
					return "succinct method " + m.Name
				}
			}
			for _, e := range m.Errors {
				if !exact[e] {
					return "undeclared error " + e
				}
			}
		}
	}
	return ""
}

func p18Single() *engine.Family {
	n := len(jtree(p18Seed()).slots())
	return &engine.Family{
		Name: "single-edits", Bound: fmt.Sprintf("%d edits (replacement by a value of any type, removal, duplication, renaming, nesting) at each of %d positions of a schema with every construct", jEdits, n),
		Run: func(x *engine.X, w *engine.W) {
			i, m := x.Choose(n), x.Choose(jEdits)
			build := func() string {
				t := jtree(p18Seed())
				t.slots()[i].edit(m)
				return t.String()
			}
			if w.Mine(build) {
				totalJSON(w, build())
			}
		},
	}
}

func p18Double(w *engine.W) *engine.Family {
	few := []int{}
	var sizes []int
	var smalls []string
	for k := 0; k < 4; k++ {
		smalls = append(smalls, p18Small(k))
		sizes = append(sizes, len(jtree(p18Small(k)).slots()))
	}
	want := map[string]bool{"null": true, `""`: true, "[]": true, "{}": true, "[null]": true, `"x"`: true, "0": true, `"St"`: true}
	for m := 0; m < jEdits; m++ {
		if m >= len(jReplace) && m < len(jReplace)+2 || m < len(jReplace) && want[jReplace[m]] {
			few = append(few, m)
		}
	}
	if w.Thorough() {
		few = few[:0]
		for m := 0; m < jEdits; m++ {
			few = append(few, m)
		}
	}
	return &engine.Family{
		Name: "double-edits", Bound: fmt.Sprintf("all pairs of %d edits at all pairs of positions of 4 small schemas", len(few)),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(4)
			seed, n := smalls[k], sizes[k]
			i := x.Choose(n - 1)
			j := i + 1 + x.Choose(n-1-i)
			a, b := few[x.Choose(len(few))], few[x.Choose(len(few))]
			build := func() string {
				t := jtree(seed)
				s := t.slots()
				s[j].edit(b) // the later one first, it doesn't move the other
				s[i].edit(a)
				return t.String()
			}
			if w.Mine(build) {
				totalJSON(w, build())
			}
		},
	}
}

// p18Values: every text in every string position.
func p18Values(w *engine.W) *engine.Family {
	vals := append(words([]string{"a", "[", "]", "<", ">", ",", "map", "string", "St", "."}, 0, engine.Pick(w, 3, 4)),
		"[]"+strings.Repeat("[]", 300)+"int", strings.Repeat("map<string,", 100)+"int"+strings.Repeat(">", 100), strings.Repeat("x", 5000), "\x00", "\u0130", "\U0001F600", "://", "%zz", "?", "#", "\n")
	var at []int
	for i, s := range jtree(p18Seed()).slots() {
		if k := s.parent.kids[s.i]; k.kind == 0 && k.raw[0] == '"' {
			at = append(at, i)
		}
	}
	return &engine.Family{
		Name: "strings", Bound: fmt.Sprintf("%d texts at each of %d string positions of a schema with every construct", len(vals), len(at)),
		Run: func(x *engine.X, w *engine.W) {
			v, i := vals[x.Choose(len(vals))], at[x.Choose(len(at))]
			build := func() string {
				t := jtree(p18Seed())
				s := t.slots()[i]
				b, _ := json.Marshal(v)
				s.parent.kids[s.i] = &jn{raw: string(b)}
				return t.String()
			}
			if w.Mine(build) {
				totalJSON(w, build())
			}
		},
	}
}

func p18Tokens(w *engine.W) *engine.Family {
	toks := []string{"{", "}", "[", "]", ":", ",", `"types"`, `"webrpc"`, `"v1"`, "null", "1", " "}
	n := engine.Pick(w, 5, 7)
	return &engine.Family{
		Name: "tokens", Bound: fmt.Sprintf("all sequences of up to %d of %d JSON tokens", n, len(toks)),
		Run: func(x *engine.X, w *engine.W) {
			var b strings.Builder
			for i, k := 0, x.Choose(n+1); i < k; i++ {
				b.WriteString(toks[x.Choose(len(toks))])
			}
			if w.Mine(b.String) {
				totalJSON(w, b.String())
			}
		},
	}
}

func p18Bytes(w *engine.W) *engine.Family {
	seed := p18Seed()
	bs := []byte("\x00\t\n \"'+,-./019:;<=>?AZ[\\]_az{|}\x7f\x80\xc3\xff")
	if w.Thorough() {
		bs = bs[:0]
		for i := 0; i < 256; i++ {
			bs = append(bs, byte(i))
		}
	}
	return &engine.Family{
		Name: "bytes", Bound: fmt.Sprintf("every truncation from either end, every removed byte, and each of %d bytes inserted or put at every of the %d positions of a schema with every construct", len(bs), len(seed)),
		Run: func(x *engine.X, w *engine.W) {
			i := x.Choose(len(seed))
			k := x.Choose(3 + 2*len(bs))
			build := func() string {
				switch {
				case k == 0:
					return seed[:i]
				case k == 1:
					return seed[i:]
				case k == 2:
					return seed[:i] + seed[i+1:]
				case k < 3+len(bs):
					return seed[:i] + string(bs[k-3]) + seed[i:]
				}
				return seed[:i] + string(bs[k-3-len(bs)]) + seed[i+1:]
			}
			if w.Mine(build) {
				totalJSON(w, build())
			}
		},
	}
}

// p18Deep: nesting and length.
func p18Deep(w *engine.W) *engine.Family {
	max := engine.Pick(w, 400, 4000)
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("nesting of values, of type expressions and of declared types, and lengths of every list, at 40 sizes up to %d", max),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(12)
			n := x.Choose(40)
			if n >= 20 {
				n = 20 + (n-19)*(max-20)/20
			}
			build := func() string {
				head := `{"webrpc":"v1","name":"x","version":"v1","types":[`
				rep := strings.Repeat
				list := func(f func(i int) string) string {
					var b strings.Builder
					for i := 0; i < n; i++ {
						if i > 0 {
							b.WriteByte(',')
						}
						b.WriteString(f(i))
					}
					return b.String()
				}
				switch k {
				case 0:
					return rep("[", n) + rep("]", n)
				case 1:
					return rep(`{"types":`, n) + "1" + rep("}", n)
				case 2:
					return head + `{"kind":"alias","name":"Al","type":"` + rep("[]", n) + `int"}]}`
				case 3:
					return head + `{"kind":"alias","name":"Al","type":"` + rep("map<string,", n) + `int` + rep(">", n) + `"}]}`
				case 4:
					return head + list(func(i int) string {
						if i == n-1 {
							return fmt.Sprintf(`{"kind":"alias","name":"Al%d","type":"int"}`, i)
						}
						return fmt.Sprintf(`{"kind":"alias","name":"Al%d","type":"Al%d"}`, i, i+1)
					}) + `]}`
				case 5:
					if n > 300 {
						n = 300 // quadratic validation
					}
					return head + list(func(i int) string {
						return fmt.Sprintf(`{"kind":"struct","name":"St%d","fields":[{"name":"n","type":"St%d"}]}`, i, (i+1)%n)
					}) + `]}`
				case 6:
					return head + `{"kind":"struct","name":"St","fields":[` + list(func(i int) string { return fmt.Sprintf(`{"name":"f%d","type":"[]St"}`, i) }) + `]}]}`
				case 7:
					return head + `{"kind":"enum","name":"En","type":"int","fields":[` + list(func(i int) string { return fmt.Sprintf(`{"name":"f%d","value":"%d"}`, i, i) }) + `]}]}`
				case 8:
					if n > 1000 {
						n = 1000
					}
					return head + `],"errors":[` + list(func(i int) string {
						return fmt.Sprintf(`{"code":%d,"name":"Er%d","message":"m","httpStatus":400}`, i+1, i)
					}) + `]}`
				case 9:
					if n > 1000 {
						n = 1000
					}
					return head + `],"services":[{"name":"Sv","methods":[` + list(func(i int) string { return fmt.Sprintf(`{"name":"Me%d","inputs":[{"name":"a","type":"int"}]}`, i) }) + `]}]}`
				case 10:
					return head + `],"services":[{"name":"Sv","methods":[{"name":"Me","inputs":[` + list(func(i int) string { return fmt.Sprintf(`{"name":"a%d","type":"int"}`, i) }) + `]}]}]}`
				}
				if n > 1000 {
					n = 1000
				}
				return head + `],"services":[` + list(func(i int) string { return fmt.Sprintf(`{"name":"Sv%d","methods":[{"name":"Me"}]}`, i) }) + `]}`
			}
			if w.Mine(func() string {
				s := build()
				if len(s) > 2000 {
					return fmt.Sprintf("kind %d, size %d: %s...", k, n, s[:2000])
				}
				return s
			}) {
				w.Heartbeat()
				totalJSON(w, build())
			}
		},
	}
}

// p18Docs: each definition of the menu with parts missing or null.
func p18Docs(w *engine.W) *engine.Family {
	budget := engine.Pick(w, 2, 3)
	var seeds []string
	sizes := map[string]int{}
	for k := 0; k < menuSize; k++ {
		seed := smallDoc(k).JSON(false)
		seeds = append(seeds, seed)
		sizes[seed] = len(jtree(seed).slots())
	}
	return &engine.Family{
		Name: "missing-parts", Budget: budget, Bound: fmt.Sprintf("every set of up to %d parts missing, null or empty, in small schemas with each of %d definitions", budget, menuSize),
		Run: func(x *engine.X, w *engine.W) {
			seed := seeds[x.Choose(menuSize)]
			picks := make([]int, sizes[seed])
			for i := range picks {
				picks[i] = x.Dev(4)
			}
			build := func() string {
				t := jtree(seed)
				s := t.slots()
				for i := len(s) - 1; i >= 0; i-- {
					switch picks[i] {
					case 1:
						s[i].edit(0)
					case 2:
						s[i].edit(len(jReplace))
					case 3:
						k := s[i].parent.kids[s[i].i]
						switch {
						case k.kind == '{':
							s[i].parent.kids[s[i].i] = &jn{raw: "{}"}
						case k.kind == '[':
							s[i].parent.kids[s[i].i] = &jn{raw: "[]"}
						default:
							s[i].parent.kids[s[i].i] = &jn{raw: `""`}
						}
					}
				}
				return t.String()
			}
			if w.Mine(build) {
				totalJSON(w, build())
			}
		},
	}
}

// p18Dup: a definition given twice, in the same or another case, of the same or
// another kind.
func p18Dup() *engine.Family {
	defs := []string{
		`{"kind":"alias","name":"%s","type":"int"}`,
		`{"kind":"enum","name":"%s","type":"int","fields":[{"name":"A","value":"0"}]}`,
		`{"kind":"struct","name":"%s","fields":[]}`,
		`{"kind":"struct","name":"%s","fields":[{"name":"a","type":"Aa"}]}`,
		`{"kind":"alias","name":"%s","type":"[]AA"}`,
		`{"kind":"alias","name":"%s","type":"map<Aa,AA>"}`,
	}
	names := []string{"Aa", "AA", "Bb", "aa", ""}
	return &engine.Family{
		Name: "duplicates", Bound: fmt.Sprintf("all pairs and triples of %d definitions under %d names that are equal, equal up to case or different", len(defs), len(names)),
		Run: func(x *engine.X, w *engine.W) {
			var ts []string
			for i, n := 0, 2+x.Choose(2); i < n; i++ {
				ts = append(ts, fmt.Sprintf(defs[x.Choose(len(defs))], names[x.Choose(len(names))]))
			}
			text := `{"webrpc":"v1","name":"x","version":"v1","types":[` + strings.Join(ts, ",") + `]}`
			if w.Mine(func() string { return text }) {
				totalJSON(w, text)
			}
		},
	}
}

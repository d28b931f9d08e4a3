package main

import (
	"fmt"
	"slices"
	"strings"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P02",
		Rule: "A state is a distinct expected schema; an execution renders an abstract document as RIDL, parses it with the real parser and compares the complete resulting schema with the reference schema (or expects a rejection).",
		Assumptions: []string{
			"the reference model of RIDL (harness/core/model.go) states the language correctly",
			"documents are compositions of the menu of constructs, with size sweeps; arbitrary nesting of every construct in every other is covered pairwise",
		},
		Families: func(w *engine.W) []*engine.Family {
			fams := []*engine.Family{composeFamily(w), beforeSupport(), sizesFamily(w), pairSizes(w), strayFamily(w), proxyFamily(), headersFamily(), p02Names(w)}
			return append(fams, wideFamily(w), p02Fields(w), p02Methods(w), p02Huge(w))
		},
	})
}

func composeFamily(w *engine.W) *engine.Family {
	k := engine.Pick(w, 4, 5)
	return &engine.Family{
		Name: "compose", Bound: fmt.Sprintf("all sequences of up to %d definitions out of a menu of %d", k, menuSize),
		Run: func(x *engine.X, w *engine.W) {
			n := x.Choose(k + 1)
			items := make([]any, 0, n)
			heads := 0
			for i := 0; i < n; i++ {
				c := x.Choose(menuSize)
				if c == 18 {
					heads++
				}
				items = append(items, menu(c, i))
			}
			d := NewDoc(append(support(), items...)...)
			run(w, d)
		},
	}
}

// beforeSupport puts the definitions ahead of what they refer to, and the
// headers anywhere.
func beforeSupport() *engine.Family {
	return &engine.Family{
		Name: "forward", Bound: "all pairs of menu definitions written before, between or after the headers and the definitions they refer to",
		Run: func(x *engine.X, w *engine.W) {
			a, b := x.Choose(menuSize), x.Choose(menuSize)
			pa, pb := x.Choose(10), x.Choose(10)
			base := NewDoc(support()...)
			d := &Doc{}
			for i, it := range base.Items {
				if i == pa {
					d.Add(menu(a, 1))
				}
				if i == pb {
					d.Add(menu(b, 2))
				}
				d.Add(it)
			}
			if pa >= len(base.Items) {
				d.Add(menu(a, 1))
			}
			if pb >= len(base.Items) {
				d.Add(menu(b, 2))
			}
			run(w, d)
		},
	}
}

// dims are the repetition counts of the language.
var dims = []struct {
	name  string
	build func(n, m int) []any // n repetitions of the construct; m tells uses apart
}{
	{"aliases", func(n, m int) (out []any) {
		for i := 0; i < n; i++ {
			t := N("string")
			if i > 0 {
				t = N(fmt.Sprintf("A%d_%d", m, i-1))
			}
			out = append(out, &Alias{Name: fmt.Sprintf("A%d_%d", m, i), T: t})
		}
		return
	}},
	{"enums", func(n, m int) (out []any) {
		for i := 0; i < n; i++ {
			out = append(out, &Enum{Name: fmt.Sprintf("E%d_%d", m, i), T: intTypes[i%len(intTypes)], Mem: []Member{{Name: "A"}, {Name: "B"}}})
		}
		return
	}},
	{"members", func(n, m int) []any {
		e := &Enum{Name: fmt.Sprintf("Em%d", m), T: "uint16"}
		for i := 0; i < n; i++ {
			mem := Member{Name: fmt.Sprintf("M%d", i)}
			if i%5 == 3 {
				mem.Val = lp(W(fmt.Sprint(1000 + i)))
			}
			e.Mem = append(e.Mem, mem)
		}
		return []any{e}
	}},
	{"structs", func(n, m int) (out []any) {
		for i := 0; i < n; i++ {
			t := N("string")
			if i > 0 {
				t = L(N(fmt.Sprintf("S%d_%d", m, i-1)))
			}
			out = append(out, &Struct{Name: fmt.Sprintf("S%d_%d", m, i), Fields: []Field{{Name: "f", T: t}, {Name: "last", T: N(fmt.Sprintf("S%d_%d", m, n-1)), Opt: true}}})
		}
		return
	}},
	{"fields", func(n, m int) []any {
		s := &Struct{Name: fmt.Sprintf("Sf%d", m)}
		for i := 0; i < n; i++ {
			s.Fields = append(s.Fields, Field{Name: fmt.Sprintf("f%d", i), T: N(coreTypes[i%len(coreTypes)]), Opt: i%3 == 1})
		}
		return []any{s}
	}},
	{"metas", func(n, m int) []any {
		f := Field{Name: "f", T: N("string")}
		for i := 0; i < n; i++ {
			f.Meta = append(f.Meta, Meta{Key: fmt.Sprintf("k%d.x", i%7), Val: W(fmt.Sprintf("v%d", i))})
		}
		return []any{&Struct{Name: fmt.Sprintf("Sm%d", m), Fields: []Field{{Name: "e", T: N("int")}, f, {Name: "g", T: N("int")}}}}
	}},
	{"alias-metas", func(n, m int) []any {
		a := &Alias{Name: fmt.Sprintf("Am%d", m), T: N("string")}
		for i := 0; i < n; i++ {
			a.Meta = append(a.Meta, Meta{Key: fmt.Sprintf("k%d.x", i%7), Val: W(fmt.Sprintf("v%d", i))})
		}
		return []any{a}
	}},
	{"errors", func(n, m int) (out []any) {
		for i := 0; i < n; i++ {
			out = append(out, &Err{Code: fmt.Sprint(1000*(m+1) + i), Name: fmt.Sprintf("Er%d_%d", m, i), Msg: Q(fmt.Sprintf("message %d", i)), HTTP: fmt.Sprint(400 + i%200)})
		}
		return
	}},
	{"services", func(n, m int) (out []any) {
		for i := 0; i < n; i++ {
			out = append(out, &Svc{Name: fmt.Sprintf("V%d_%d", m, i), Methods: []Method{{Name: "P", In: []Arg{{Name: fmt.Sprintf("a%d", i), T: N("int")}}}}})
		}
		return
	}},
	{"methods", func(n, m int) []any {
		v := &Svc{Name: fmt.Sprintf("Vm%d", m)}
		for i := 0; i < n; i++ {
			v.Methods = append(v.Methods, Method{Name: fmt.Sprintf("M%d", i), In: []Arg{{Name: fmt.Sprintf("a%d", i), T: N("int")}}, HasOut: i%2 == 0, SIn: i%3 == 0})
		}
		return []any{v}
	}},
	{"inputs", func(n, m int) []any {
		v := &Svc{Name: fmt.Sprintf("Vi%d", m), Methods: []Method{{Name: "M"}, {Name: "After"}}}
		for i := 0; i < n; i++ {
			v.Methods[0].In = append(v.Methods[0].In, Arg{Name: fmt.Sprintf("a%d", i), T: N(coreTypes[i%len(coreTypes)]), Opt: i%4 == 2})
		}
		return []any{v}
	}},
	{"outputs", func(n, m int) []any {
		v := &Svc{Name: fmt.Sprintf("Vo%d", m), Methods: []Method{{Name: "M", HasOut: true}, {Name: "After"}}}
		for i := 0; i < n; i++ {
			v.Methods[0].Out = append(v.Methods[0].Out, Arg{Name: fmt.Sprintf("a%d", i), T: L(N(coreTypes[i%len(coreTypes)])), Opt: i%4 == 3})
		}
		return []any{v}
	}},
	{"annotations", func(n, m int) []any {
		v := &Svc{Name: fmt.Sprintf("Va%d", m), Methods: []Method{{Name: "M"}, {Name: "After"}}}
		for i := 0; i < n; i++ {
			a := Ann{Name: fmt.Sprintf("a%d", i), NL: i%3 == 0}
			if i%2 == 1 {
				a.Val = lp(W(fmt.Sprintf("v%d", i)))
			}
			v.Methods[0].Ann = append(v.Methods[0].Ann, a)
		}
		return []any{v}
	}},
	{"method-errors", func(n, m int) (out []any) {
		v := &Svc{Name: fmt.Sprintf("Ve%d", m), Methods: []Method{{Name: "M"}, {Name: "After"}}}
		for i := 0; i < n; i++ {
			out = append(out, &Err{Code: fmt.Sprint(500000*(m+1) + i), Name: fmt.Sprintf("Me%d_%d", m, i), Msg: Q("m")})
			v.Methods[0].Errs = append(v.Methods[0].Errs, fmt.Sprintf("Me%d_%d", m, n-1-i))
		}
		return append(out, v)
	}},
	{"docs", func(n, m int) []any {
		s := &Struct{Name: fmt.Sprintf("Sd%d", m), Fields: []Field{{Name: "a", T: N("int")}, {Name: "b", T: N("int")}}}
		for i := 0; i < n; i++ {
			s.Doc = append(s.Doc, fmt.Sprintf("line %d", i))
			s.Fields[1].Doc = append(s.Fields[1].Doc, fmt.Sprintf("field line %d", i))
		}
		return []any{s}
	}},
	{"depth", func(n, m int) []any {
		t := N("string")
		for i := 0; i < n; i++ {
			if i%2 == m%2 {
				t = L(t)
			} else {
				t = M("string", t)
			}
		}
		return []any{&Struct{Name: fmt.Sprintf("Sx%d", m), Fields: []Field{{Name: "a", T: t}}}}
	}},
	{"name-length", func(n, m int) []any {
		long := strings.Repeat("x", n)
		return []any{
			&Struct{Name: fmt.Sprintf("Sn%d", m) + long, Fields: []Field{{Name: "f" + long, T: N(fmt.Sprintf("Sn%d", m) + long)}}},
			&Svc{Name: fmt.Sprintf("Vn%d", m) + long, Methods: []Method{{Name: "M" + long, In: []Arg{{Name: "a" + long, T: L(N(fmt.Sprintf("Sn%d", m) + long))}}}}},
		}
	}},
}

func sizesFamily(w *engine.W) *engine.Family {
	n := engine.Pick(w, 70, 300)
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("0..%d repetitions of each of %d constructs", n, len(dims)),
		Run: func(x *engine.X, w *engine.W) {
			d := NewDoc()
			dim := x.Choose(len(dims))
			k := x.Choose(n + 1)
			var items []any
			build := func() *Doc {
				if items == nil {
					items = dims[dim].build(k, 0)
					d.Add(items...)
				}
				return d
			}
			if !w.Mine(func() string { return build().RIDL() }) {
				return
			}
			build()
			want, ok := d.Expect()
			expect(w, d.RIDL(), want, ok)
		},
	}
}

func pairSizes(w *engine.W) *engine.Family {
	n := engine.Pick(w, 6, 14)
	return &engine.Family{
		Name: "pair-sizes", Bound: fmt.Sprintf("0..%d repetitions of each pair of %d constructs", n-1, len(dims)),
		Run: func(x *engine.X, w *engine.W) {
			a, b := x.Choose(len(dims)), x.Choose(len(dims))
			i, j := x.Choose(n), x.Choose(n)
			d := NewDoc(append(dims[a].build(i, 0), dims[b].build(j, 1)...)...)
			run(w, d)
		},
	}
}

// wideFamily takes single counts far beyond the sweep.
func wideFamily(w *engine.W) *engine.Family {
	ns := engine.Pick(w, []int{127, 128, 129, 255, 256, 257, 300}, []int{127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049})
	return &engine.Family{
		Name: "wide", Bound: fmt.Sprintf("each construct repeated %v times", ns),
		Run: func(x *engine.X, w *engine.W) {
			a := x.Choose(len(dims))
			n := ns[x.Choose(len(ns))]
			if dims[a].name == "depth" && n > 300 {
				n = 300
			}
			if !w.Mine(func() string { return fmt.Sprintf("%s x %d", dims[a].name, n) }) {
				return
			}
			d := NewDoc(dims[a].build(n, 0)...)
			want, ok := d.Expect()
			expect(w, d.RIDL(), want, ok)
		},
	}
}

// strayFamily inserts text that belongs to no definition at every gap and line
// end of a document with every construct: it must be rejected.
func strayFamily(w *engine.W) *engine.Family {
	ls := rich().Lines()
	var texts []string
	var owner []string
	type spot struct{ pos int }
	var b strings.Builder
	var spots []spot
	var kinds []string
	for _, l := range ls {
		if l.kind == "comment" || l.kind == "blank" {
			l.write(&b, nil)
			b.WriteString("\n")
			continue
		}
		b.WriteString(l.indent)
		spots = append(spots, spot{b.Len()})
		kinds = append(kinds, l.kind+"-start")
		cut := *l
		cut.indent, cut.trail = "", nil
		for i := range cut.parts {
			one := line{kind: l.kind, parts: cut.parts[i : i+1]}
			if g := cut.parts[i].g; g == gOpt1 || g == gReq {
				b.WriteString(" ")
				spots = append(spots, spot{b.Len()})
				kinds = append(kinds, l.kind+"-gap")
				continue
			}
			one.write(&b, nil)
		}
		b.WriteString(" ")
		spots = append(spots, spot{b.Len()})
		kinds = append(kinds, l.kind+"-end")
		if l.trail != nil {
			b.WriteString("# " + *l.trail)
		}
		b.WriteString("\n")
	}
	_, _ = texts, owner
	text := b.String()
	strays := []string{"stray", "7", "\x00", "\x01", "\u00e9", "\U0001F600", "\"q\"", "*", "x.y", ";", "~"}
	ends := append([]string{",", "}", "&", "%", "^", "`", "$", ", ", ",,", "=", "-", ")", "(", "]", "<", ">", ":", "?", "@", "|", "/", ".", "\\", "+", "{", "!", "=>", "'", "()", "[]", "<>", "\"", "\u00a0", "\v", "\f", "_", "HTTP", "errors", "string", "map<string,string>"}, strays...)
	return &engine.Family{
		Name: "stray", Bound: fmt.Sprintf("%d stray texts at every gap, %d at every line end of a document with every construct (%d places)", len(strays), len(ends), len(spots)),
		Run: func(x *engine.X, w *engine.W) {
			i := x.Choose(len(spots) + 1)
			if i == len(spots) { // the document itself is fine
				if w.Mine(func() string { return text }) {
					want, ok := rich().Expect()
					want2 := *want
					expect(w, text, &want2, ok)
				}
				return
			}
			set := strays
			if strings.HasSuffix(kinds[i], "-end") {
				set = ends
			}
			s := set[x.Choose(len(set))]
			if strings.HasPrefix(kinds[i], "annotation") && s == "@" {
				return
			}
			p := spots[i].pos
			t := text[:p] + s + " " + text[p:]
			if !w.Mine(func() string { return t }) {
				return
			}
			expect(w, t, nil, false)
		},
	}
}

func proxyFamily() *engine.Family {
	return &engine.Family{
		Name: "proxy", Bound: "a proxy method at each position among up to 3 methods",
		Run: func(x *engine.X, w *engine.W) {
			n := x.Choose(4)
			at := x.Choose(n + 1)
			text := "webrpc = v1\nversion = v1\nservice S\n"
			want := &Sch{Webrpc: "v1", Version: "v1", Svcs: []RSvc{{Name: "S"}}}
			for i := 0; i <= n; i++ {
				name := fmt.Sprintf("M%d", i)
				m := RMethod{Name: name}
				if i == at {
					text += "  - proxy " + name + "\n"
				} else {
					text += "  - " + name + "(a: int)\n"
					m.In = []RArg{{Name: "a", T: "int"}}
				}
				want.Svcs[0].Methods = append(want.Svcs[0].Methods, m)
			}
			if w.Mine(func() string { return text }) {
				expect(w, text, want, true)
			}
		},
	}
}

// headersFamily writes every subset and order of the headers.
func headersFamily() *engine.Family {
	keys := []string{"webrpc", "name", "version", "basepath"}
	vals := []string{"v1", "my-api", "v0.1.2-rc", "/api/v1"}
	return &engine.Family{
		Name: "headers", Bound: "all sequences of up to 5 headers, with and without a service, before or after it",
		Run: func(x *engine.X, w *engine.W) {
			n := x.Choose(6)
			d := &Doc{}
			svc := x.Choose(3)
			if svc == 1 {
				d.Add(&Svc{Name: "S", Methods: []Method{{Name: "M"}}})
			}
			for i := 0; i < n; i++ {
				k := x.Choose(4)
				d.Add(&Head{Key: keys[k], Val: Lit{vals[k], x.Bool()}})
			}
			if svc == 2 {
				d.Add(&Svc{Name: "S", Methods: []Method{{Name: "M"}}})
			}
			run(w, d)
		},
	}
}

// p02Names: definitions of one kind whose names are similar.
func p02Names(w *engine.W) *engine.Family {
	pool := []string{"Ab", "Abc", "AbAb", "Cab", "Ba", "AB1", "Bab", "A_b", "A"}
	kinds := []string{"struct", "enum", "alias", "error", "service", "method", "field", "member", "argument", "annotation", "metadata", "mixed types"}
	n := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "similar-names", Bound: fmt.Sprintf("all sequences of 2 to %d of the names %q for definitions of each of %d kinds, all different in content and all referred to", n, pool, len(kinds)),
		Run: func(x *engine.X, w *engine.W) {
			kind := kinds[x.Choose(len(kinds))]
			k := 2 + x.Choose(n-1)
			var names []string
			for i := 0; i < k; i++ {
				v := pool[x.Choose(len(pool))]
				if slices.Contains(names, v) {
					return
				}
				names = append(names, v)
			}
			d := NewDoc()
			use := &Struct{Name: "Zuse"}
			svc := &Svc{Name: "Zsvc"}
			def := &Struct{Name: "Zdef"}
			enum := &Enum{Name: "Zen", T: "string"}
			var args []Arg
			var anns []Ann
			var metas []Meta
			for i, v := range names {
				t := []string{"string", "int", "bool", "float32"}[i]
				kd := kind
				if kind == "mixed types" {
					kd = kinds[i%3]
				}
				switch kd {
				case "struct":
					d.Add(&Struct{Name: v, Fields: []Field{{Name: fmt.Sprintf("f%d", i), T: N(t)}}})
					use.Fields = append(use.Fields, Field{Name: fmt.Sprintf("u%d", i), T: N(v)}, Field{Name: fmt.Sprintf("l%d", i), T: L(N(v))})
					svc.Methods = append(svc.Methods, Method{Name: fmt.Sprintf("M%d", i), Succ: v, HasOut: true, SuccOut: names[0]})
					if kind == "mixed types" {
						svc.Methods = nil
					}
				case "enum":
					d.Add(&Enum{Name: v, T: []string{"string", "int", "uint8", "int64"}[i], Mem: []Member{{Name: fmt.Sprintf("X%d", i)}}})
					use.Fields = append(use.Fields, Field{Name: fmt.Sprintf("u%d", i), T: M(v, N(v))})
				case "alias":
					d.Add(&Alias{Name: v, T: N(t), Meta: []Meta{{Key: "n", Val: W(fmt.Sprint("v", i))}}})
					use.Fields = append(use.Fields, Field{Name: fmt.Sprintf("u%d", i), T: M("string", N(v))})
				case "error":
					d.Add(&Err{Code: fmt.Sprint(10 + i), Name: v, Msg: Q(fmt.Sprint("text ", i)), HTTP: fmt.Sprint(410 + i)})
					svc.Methods = append(svc.Methods, Method{Name: fmt.Sprintf("M%d", i), Errs: append([]string{v}, names[:i]...)})
				case "service":
					d.Add(&Svc{Name: v, Methods: []Method{{Name: fmt.Sprintf("M%d", i), In: []Arg{{Name: "a", T: N(t)}}}, {Name: "Same"}}})
				case "method":
					svc.Methods = append(svc.Methods, Method{Name: v, SIn: i%2 == 0, In: []Arg{{Name: "a", T: N(t)}}, Ann: []Ann{{Name: "a", Val: lp(W(fmt.Sprint(i)))}}})
				case "field":
					def.Fields = append(def.Fields, Field{Name: v, T: N(t), Opt: i%2 == 1, Meta: []Meta{{Key: "n", Val: W(fmt.Sprint(i))}}})
				case "member":
					m := Member{Name: v}
					if i%2 == 1 {
						m.Val = lp(W("other"))
					}
					enum.Mem = append(enum.Mem, m)
				case "argument":
					args = append(args, Arg{Name: v, T: N(t), Opt: i%2 == 0})
				case "annotation":
					anns = append(anns, Ann{Name: v, Val: lp(W(fmt.Sprint(i))), NL: i%2 == 0})
				case "metadata":
					metas = append(metas, Meta{Key: v, Val: W(fmt.Sprint(i))})
				}
			}
			switch kind {
			case "argument":
				svc.Methods = append(svc.Methods, Method{Name: "M", In: args, Out: args, HasOut: true})
			case "annotation":
				svc.Methods = append(svc.Methods, Method{Name: "M", Ann: anns}, Method{Name: "N", Ann: anns[:1]})
			case "metadata":
				def.Fields = append(def.Fields, Field{Name: "f", T: N("int"), Meta: metas})
			}
			if len(def.Fields) > 0 {
				d.Add(def)
			}
			if len(enum.Mem) > 0 {
				d.Add(enum)
			}
			if len(use.Fields) > 0 {
				d.Add(use)
			}
			if len(svc.Methods) > 0 {
				d.Add(svc)
			}
			runBoth(w, func() *Doc { return d })
		},
	}
}

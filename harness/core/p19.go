package main

import (
	"fmt"
	"slices"
	"strings"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P19",
		Rule: "An execution parses one document with comments placed around its lines and compares the whole schema, with the doc comments of every definition, with the reference; a state is a distinct expected schema.",
		Assumptions: []string{
			"comments are valid UTF-8; in doc comments, runs of blanks count as one blank, and blanks and extra '#' at the start of a line are left out",
			"enum types have no doc comment in the schema; comments of headers, imports, errors and metadata lines belong to those and show up nowhere",
			"comments between or beside the annotations of one method may become part of that method's doc comment, but of no other",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p19Sites(w, false), p19Sites(w, true), p19Docs(w), p19Text(w), p19Blocks(w), p19Counts(w), p19Many(w), p19Seq(w), p19Gaps(w), p19Down(w), p19Ann(), p19Lists(), p19Files(w), p19Ends(), p19First(w), p19Blanks(w)}
		},
	})
}

// p19Doc is a document with every construct, without comments.
func p19Doc() *Doc {
	return NewDoc(
		&Imp{Path: W("lib.ridl")},
		&Alias{Name: "Al", T: N("string"), Meta: []Meta{{Key: "k", Val: W("v")}, {Key: "l", Val: Q("# no")}}},
		&Alias{Name: "Bl", T: L(N("St"))},
		&Enum{Name: "En", T: "int", Mem: []Member{{Name: "A"}, {Name: "B", Val: lp(W("7"))}}},
		&Struct{Name: "St", Fields: []Field{{Name: "x", T: N("string"), Meta: []Meta{{Key: "json", Val: W("xx")}}}, {Name: "y", T: M("string", N("En")), Opt: true}}},
		&Struct{Name: "Su"},
		&Err{Code: "1", Name: "Ea", Msg: Q("a # b")},
		&Err{Code: "2", Name: "Eb", Msg: Q("b"), HTTP: "404"},
		&Svc{Name: "Sv", Methods: []Method{
			{Name: "Ma", In: []Arg{{Name: "q", T: N("St")}}},
			{Name: "Mb", Ann: []Ann{{Name: "a"}, {Name: "b", Val: lp(W("v"))}, {Name: "c", NL: true}}, HasOut: true, Errs: []string{"Ea"}},
			{Name: "Mc", Succ: "St", HasOut: true, SuccOut: "Su"}}},
		&Svc{Name: "Tv", Methods: []Method{{Name: "Ma", SIn: true}, {Name: "Mp", Ann: []Ann{{Name: "a"}}, Proxy: true}}},
	)
}

func p19Lib() *Doc {
	return NewDoc(&Struct{Name: "Lib", Cm: Cm{Doc: []string{"of Lib"}}, Fields: []Field{{Name: "l", T: N("int"), Cm: Cm{Trail: str("of l")}}}})
}

// sites are the places for comments of a document, in order.
func (d *Doc) sites() (out []*Cm, names []string) {
	add := func(n string, c *Cm) { out, names = append(out, c), append(names, n) }
	metas := func(n string, ms []Meta) {
		for i := range ms {
			add(n+" meta", &ms[i].Cm)
		}
	}
	for _, it := range d.Items {
		switch v := it.(type) {
		case *Head:
			add("head "+v.Key, &v.Cm)
		case *Imp:
			if !v.InList {
				add("import", &v.Cm)
			}
		case *Alias:
			add("alias "+v.Name, &v.Cm)
			metas(v.Name, v.Meta)
		case *Enum:
			add("enum "+v.Name, &v.Cm)
			for i := range v.Mem {
				add(v.Name+"."+v.Mem[i].Name, &v.Mem[i].Cm)
			}
		case *Struct:
			add("struct "+v.Name, &v.Cm)
			for i := range v.Fields {
				add(v.Name+"."+v.Fields[i].Name, &v.Fields[i].Cm)
				metas(v.Name+"."+v.Fields[i].Name, v.Fields[i].Meta)
			}
		case *Err:
			add("error "+v.Name, &v.Cm)
		case *Svc:
			add("service "+v.Name, &v.Cm)
			for i := range v.Methods {
				add(v.Name+"."+v.Methods[i].Name, &v.Methods[i].Cm)
			}
		}
	}
	return
}

const p19Kinds = 12

// put writes comments of a kind at a place; the words tell the place.
func (c *Cm) put(k, n int) {
	t := func(s string) string { return fmt.Sprintf("%s %d", s, n) }
	switch k {
	case 1:
		c.Doc = []string{t("doc")}
	case 2:
		c.Trail = str(t("beside"))
	case 3:
		c.Far = []string{t("far")}
	case 4:
		c.Doc, c.Trail = []string{t("one"), t("two")}, str(t("beside"))
	case 5:
		c.Far, c.Doc = []string{t("far"), t("off")}, []string{t("doc")}
	case 6:
		c.Far, c.Trail = []string{t("far")}, str(t("beside"))
	case 7:
		c.Far, c.Doc, c.Trail = []string{t("far")}, []string{t("one"), t("two")}, str(t("beside"))
	case 8:
		c.Doc = []string{t("one"), "!" + t("hidden"), t("two")}
	case 9:
		c.Doc, c.Trail = []string{t("doc")}, str("!"+t("hidden"))
	case 10:
		c.Doc = []string{t("one"), "", t("two")}
	case 11:
		c.Doc, c.Trail = []string{"!" + t("hidden")}, str(t("beside"))
	}
}

// tight renders a document without blank lines, apart from those that keep a
// comment away.
func (d *Doc) tight() string {
	var b strings.Builder
	prev := ""
	for _, l := range d.Lines() {
		if l.kind == "blank" && prev != "comment" {
			continue
		}
		prev = l.kind
		l.write(&b, nil)
		b.WriteString("\n")
	}
	return b.String()
}

// p19Check parses a document that may import lib.ridl.
func p19Check(w *engine.W, d *Doc, text string) {
	lib := p19Lib()
	var imps []*imported
	for _, it := range d.Items {
		if _, is := it.(*Imp); is {
			imps = append(imps, &imported{Types: []any{lib.Items[3]}})
		}
	}
	want, ok := d.Expect(imps...)
	s, err := parseFS(memFS{"a.ridl": text, "lib.ridl": lib.RIDL()}, "a.ridl")
	judge(w, s, err, want, ok)
}

// p19Sites: comments of every kind at a few places of a document.
func p19Sites(w *engine.W, tight bool) *engine.Family {
	cs, _ := p19Doc().sites()
	n := len(cs)
	b := 2
	name, how := "places", "blank lines between definitions"
	if tight {
		name, how = "places-tight", "no blank lines between definitions"
	}
	return &engine.Family{
		Name: name, Budget: b, Bound: fmt.Sprintf("every combination of %d kinds of comments at up to %d of %d places of a document, %s", p19Kinds-1, b, n, how),
		Run: func(x *engine.X, w *engine.W) {
			sel := make([]int, n)
			for i := range sel {
				sel[i] = x.Dev(p19Kinds)
			}
			build := func() (*Doc, string) {
				d := p19Doc()
				cs, _ := d.sites()
				for i, c := range cs {
					c.put(sel[i], i)
				}
				if tight {
					return d, d.tight()
				}
				return d, d.RIDL()
			}
			if w.Mine(func() string { _, t := build(); return t }) {
				d, t := build()
				p19Check(w, d, t)
			}
		},
	}
}

// p19Docs: comments at every place of the small documents.
func p19Docs(w *engine.W) *engine.Family {
	b := engine.Pick(w, 2, 4)
	kinds := engine.Pick(w, 5, 8)
	return &engine.Family{
		Name: "small-documents", Budget: b, Bound: fmt.Sprintf("every combination of %d kinds of comments at up to %d places of %d small documents, with and without blank lines", kinds-1, b, menuSize),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(menuSize)
			tight := x.Bool()
			d := smallDoc(k)
			cs, _ := d.sites()
			for i, c := range cs {
				*c = Cm{}
				c.put(x.Dev(kinds), i)
			}
			if tight {
				if w.Mine(func() string { return d.tight() }) {
					p19Check(w, d, d.tight())
				}
			} else if w.Mine(func() string { return d.RIDL() }) {
				p19Check(w, d, d.RIDL())
			}
		},
	}
}

// p19Text: every short comment text at every kind of place.
func p19Text(w *engine.W) *engine.Family {
	ws := words([]string{" ", "a", "#", "!", "\"", "\\", "\t", "b:", "/", "-"}, 0, engine.Pick(w, 3, 5))
	ws = append(ws, " struct X", " => (a: b)", " @ann:v", " \u00e9\u4e16\U0001f600", " https://x.y/z?a=b&c=%20#d", " a,b;c.d 'e' (f) [g] {h} <i> *j* _k_ `l` ~m^n|o$p", " + json = x", " error 1 E \"m\"", "\x00\x01", " a\u00a0b\u2003c", " x\x0by\x0cz")
	for _, v := range commentWords {
		ws = append(ws, " "+v, " "+v+" and more", " more "+v)
	}
	for _, v := range markValues {
		ws = append(ws, " "+v)
	}
	sites := []string{"alias Al", "enum En", "En.A", "struct St", "St.x", "service Sv", "Sv.Ma", "Sv.Mb", "error Ea", "import", "Al meta", "head name"}
	return &engine.Family{
		Name: "text", Bound: fmt.Sprintf("%d texts over an alphabet of 10 fragments, above or beside %d places", len(ws), len(sites)),
		Run: func(x *engine.X, w *engine.W) {
			t := ws[x.Choose(len(ws))]
			at := sites[x.Choose(len(sites))]
			beside := x.Bool()
			build := func() *Doc {
				d := p19Small()
				cs, ns := d.sites()
				for i, n := range ns {
					if n != at {
						continue
					}
					if beside {
						cs[i].Trail = &t
					} else {
						cs[i].Doc = []string{t}
					}
				}
				return d
			}
			if w.Mine(func() string { return build().raw() }) {
				d := build()
				p19Check(w, d, d.raw())
			}
		},
	}
}

// p19Blocks: every block of lines, hidden and empty ones among them.
func p19Blocks(w *engine.W) *engine.Family {
	lines := words([]string{"", " ", "a", " b c ", "!h", " ! i"}, 1, 1)
	n := engine.Pick(w, 3, 4)
	trails := []*string{nil, str(""), str("t"), str(" !u "), str("!v")}
	cs, ns := p19Small().sites()
	annotated := slices.Index(ns, "Sv.Mb")
	return &engine.Family{
		Name: "blocks", Bound: fmt.Sprintf("all blocks of up to %d comment lines of %d (empty and hidden ones included) above each of %d places, with %d forms of comments beside", n, len(lines), len(cs), len(trails)),
		Run: func(x *engine.X, w *engine.W) {
			at := x.Choose(len(cs))
			var doc []string
			for i := x.Choose(n + 1); i > 0; i-- {
				doc = append(doc, lines[x.Choose(len(lines))])
			}
			t := trails[x.Choose(len(trails))]
			if at == annotated {
				// an empty comment on its own may be left out between annotations
				if l := docLines(&Cm{Doc: append(doc[:len(doc):len(doc)], "x")}); len(l) == 2 && l[0] == "" || t != nil && *t == "" {
					return
				}
			}
			build := func() *Doc {
				d := p19Small()
				cs, _ := d.sites()
				cs[at].Doc, cs[at].Trail = doc, t
				return d
			}
			if w.Mine(func() string { return build().raw() }) {
				d := build()
				p19Check(w, d, d.raw())
			}
		},
	}
}

func p19Small() *Doc {
	return NewDoc(
		&Imp{Path: W("lib.ridl")},
		&Alias{Name: "Al", T: N("string"), Meta: []Meta{{Key: "k", Val: W("v")}}},
		&Enum{Name: "En", T: "int", Mem: []Member{{Name: "A"}}},
		&Struct{Name: "St", Fields: []Field{{Name: "x", T: N("string")}}},
		&Err{Code: "1", Name: "Ea", Msg: Q("a")},
		&Svc{Name: "Sv", Methods: []Method{{Name: "Ma"}, {Name: "Mb", Ann: []Ann{{Name: "a"}}}}},
	)
}

// raw renders with comment texts exactly as given.
func (d *Doc) raw() string {
	var b strings.Builder
	for _, l := range d.Lines() {
		if l.kind == "comment" {
			l.write(&b, nil)
		} else {
			c := *l
			c.trail = nil
			c.write(&b, nil)
			if l.trail != nil {
				b.WriteString(" #" + *l.trail)
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

// p19Counts: long doc comments and far comments.
func p19Counts(w *engine.W) *engine.Family {
	cs, _ := p19Small().sites()
	max := engine.Pick(w, 40, 300)
	return &engine.Family{
		Name: "counts", Bound: fmt.Sprintf("0..%d doc lines after 0..2 far lines at each of %d places", max, len(cs)),
		Run: func(x *engine.X, w *engine.W) {
			i, n, far := x.Choose(len(cs)), x.Choose(max+1), x.Choose(3)
			trail := x.Bool()
			build := func() *Doc {
				d := p19Small()
				cs, _ := d.sites()
				for k := 0; k < n; k++ {
					cs[i].Doc = append(cs[i].Doc, fmt.Sprintf("line %d", k))
				}
				for k := 0; k < far; k++ {
					cs[i].Far = append(cs[i].Far, fmt.Sprintf("far %d", k))
				}
				if trail {
					cs[i].Trail = str("end")
				}
				return d
			}
			if w.Mine(func() string { return build().RIDL() }) {
				d := build()
				p19Check(w, d, d.RIDL())
			}
		},
	}
}

// p19Seq: every sequence of commented definitions, tight.
func p19Seq(w *engine.W) *engine.Family {
	mk := []func(i string) any{
		func(i string) any { return &Alias{Name: "Al" + i, T: N("string")} },
		func(i string) any {
			return &Alias{Name: "Am" + i, T: N("string"), Meta: []Meta{{Key: "k", Val: W("v")}}}
		},
		func(i string) any { return &Enum{Name: "En" + i, T: "int", Mem: []Member{{Name: "A"}}} },
		func(i string) any { return &Struct{Name: "Su" + i} },
		func(i string) any { return &Struct{Name: "St" + i, Fields: []Field{{Name: "x", T: N("string")}}} },
		func(i string) any { return &Err{Code: "1" + i, Name: "Ea" + i, Msg: Q("a")} },
		func(i string) any {
			return &Svc{Name: "Sv" + i, Methods: []Method{{Name: "Ma", Ann: []Ann{{Name: "a"}}}}}
		},
		func(i string) any { return &Imp{Path: W("lib.ridl"), Members: []string{"Lib"}} },
	}
	n := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "sequences", Bound: fmt.Sprintf("all sequences of up to %d definitions of %d kinds, comments of up to 3 kinds at the first and last line of each, with and without blank lines", n, len(mk)),
		Run: func(x *engine.X, w *engine.W) {
			k := 1 + x.Choose(n)
			tight := x.Bool()
			d := NewDoc()
			for i := 0; i < k; i++ {
				one := &Doc{}
				one.Add(mk[x.Choose(len(mk))](fmt.Sprint(i)))
				cs, _ := one.sites()
				cs[0].put(x.Choose(3), i)
				if len(cs) > 1 {
					cs[len(cs)-1].put(2*x.Choose(2), i+10)
				}
				if im, is := one.Items[0].(*Imp); is && i > 0 {
					im.Members = nil // twice the same is one
				}
				d.Add(one.Items...)
			}
			text := func() string {
				if tight {
					return d.tight()
				}
				return d.RIDL()
			}
			if w.Mine(text) {
				p19Files1(w, d, text())
			}
		},
	}
}

// p19Files1 is p19Check for a document that may import the library repeatedly.
func p19Files1(w *engine.W, d *Doc, text string) {
	lib := p19Lib()
	want, ok, _ := Files{"a.ridl": d, "lib.ridl": lib}.Expect("a.ridl")
	s, err := parseFS(memFS{"a.ridl": text, "lib.ridl": lib.RIDL()}, "a.ridl")
	judge(w, s, err, want, ok)
}

// p19Gaps: any mixture of blank, blank-looking and comment lines in front of a
// definition; only the comment lines directly above count.
func p19Gaps(w *engine.W) *engine.Family {
	k := engine.Pick(w, 5, 7)
	return p19GapsAt("gaps", fmt.Sprintf("all sequences of up to %d blank, whitespace and comment lines between two definitions, at 8 places", k), k, []int{0})
}

func p19Down(w *engine.W) *engine.Family {
	k := engine.Pick(w, 1, 2)
	ns := engine.Pick(w, []int{254, 1000, 4093, 10000}, []int{126, 254, 510, 1000, 1022, 2045, 4093, 8190, 10000, 32766, 65530, 100000, 131070})
	return p19GapsAt("far-down", fmt.Sprintf("all sequences of up to %d blank, whitespace and comment lines between two definitions, at 8 places, after %v lines that are blank, comments, comments and blanks in turn, or white", k, ns), k, ns)
}

func p19GapsAt(name, bound string, k int, fill []int) *engine.Family {
	return &engine.Family{
		Name: name, Bound: bound,
		Run: func(x *engine.X, w *engine.W) {
			lines, filler := fill[x.Choose(len(fill))], ""
			if lines > 0 {
				filler = []string{"", "# a comment", "# two\n", "\t"}[x.Choose(4)]
			}
			at := x.Choose(8)
			n := x.Choose(k + 1)
			trail := x.Bool()
			eol := "\n"
			if x.Bool() {
				eol = "\r\n"
			}
			var b strings.Builder
			var above []string
			for i := 0; i < n; i++ {
				switch x.Choose(4) {
				case 0:
					b.WriteString(eol)
					above = nil
				case 1:
					b.WriteString(" \t" + eol)
					above = nil
				case 2:
					fmt.Fprintf(&b, "# line %d%s", i, eol)
					above = append(above, fmt.Sprintf("line %d", i))
				case 3:
					fmt.Fprintf(&b, "\t#! line %d%s", i, eol)
					above = append(above, fmt.Sprintf("! line %d", i))
				}
			}
			gap := b.String()
			build := func() (*Doc, string) {
				d := p19Small()
				cs, ns := d.sites()
				lab := []string{"alias Al", "Al meta", "enum En", "En.A", "struct St", "St.x", "Sv.Ma", "Sv.Mb"}[at]
				var c *Cm
				var prev *Cm
				for i := range cs {
					if ns[i] == lab {
						c = cs[i]
						prev = cs[i-1]
					}
				}
				if trail {
					prev.Trail = str("beside the one before")
				}
				c.Doc = []string{"@@"}
				text := d.tight()
				i := strings.Index(text, "# @@\n")
				j := strings.LastIndex(text[:i], "\n") + 1
				text = strings.ReplaceAll(text[:j], "\n", eol) + gap + strings.ReplaceAll(text[i+len("# @@\n"):], "\n", eol)
				c.Doc = above
				if lines > 0 {
					text = strings.Repeat(filler+eol, lines/(1+strings.Count(filler, "\n"))) + eol + text
				}
				return d, text
			}
			if w.Mine(func() string {
				if lines > 0 {
					return fmt.Sprintf("%d lines of %q, at %d, gap %q, %v %q", lines, filler, at, gap, trail, eol)
				}
				_, t := build()
				return t
			}) {
				d, t := build()
				p19Check(w, d, t)
			}
		},
	}
}

// p19Ann: comments anywhere around the annotations of a method stay with it.
func p19Ann() *engine.Family {
	return &engine.Family{
		Name: "annotations", Bound: "every subset of comments above and beside each of two annotation lines and the method line, with the same around the method before and after, 2 forms of far comments",
		Run: func(x *engine.X, w *engine.W) {
			var b strings.Builder
			docs := map[string][]string{}
			b.WriteString("webrpc = v1\nversion = v1\nservice Sv\n")
			n := 0
			put := func(m string, line string, ann bool) {
				switch x.Choose(4) {
				case 1:
					fmt.Fprintf(&b, "  # above %d\n  %s\n", n, line)
					docs[m] = append(docs[m], fmt.Sprintf("above %d", n))
				case 2:
					fmt.Fprintf(&b, "  %s # beside %d\n", line, n)
					docs[m] = append(docs[m], fmt.Sprintf("beside %d", n))
				case 3:
					fmt.Fprintf(&b, "  # far %d\n\n  %s\n", n, line)
				default:
					fmt.Fprintf(&b, "  %s\n", line)
				}
				n++
			}
			put("Ma", "- Ma()", false)
			put("Mb", "@a @b:v", true)
			put("Mb", "@c", true)
			put("Mb", "- Mb()", false)
			put("Mc", "@a", true)
			put("Mc", "- Mc()", false)
			put("Md", "- Md()", false)
			text := b.String()
			if !w.Mine(func() string { return text }) {
				return
			}
			w.Step(1)
			s, err := parseText(text)
			if err != nil || len(s.Services) != 1 || len(s.Services[0].Methods) != 4 {
				w.Fail("rejected", "a valid document was rejected or mangled: %v", err)
				return
			}
			for _, m := range s.Services[0].Methods {
				w.State(m.Name + strings.Join(m.Comments, "\n"))
				if strings.Join(m.Comments, "\n") != strings.Join(docs[m.Name], "\n") {
					w.Fail("differs", "method %s: doc comment %q, want %q", m.Name, m.Comments, docs[m.Name])
				}
			}
			if len(s.Services[0].Comments) != 0 {
				w.Fail("differs", "service: doc comment %q, want none", s.Services[0].Comments)
			}
		},
	}
}

// p19Lists: comments around import lists, member lists and argument lists leak
// nowhere.
func p19Lists() *engine.Family {
	ls := []string{"import", "  - lib.ridl", "  - other.ridl", "import lib.ridl", "  - Lib", "  - Libb", "error 1 Ea \"a\"", "error 2 Eb \"b\" HTTP 404", "name = x"}
	return &engine.Family{
		Name: "lists", Budget: 3, Bound: fmt.Sprintf("comments above, beside or away from up to 3 of %d lines without doc comments, followed at once by each of 5 definitions with or without a doc comment", len(ls)),
		Run: func(x *engine.X, w *engine.W) {
			var b strings.Builder
			b.WriteString("webrpc = v1\nversion = v1\n")
			use := x.Choose(4)
			from, to := []int{0, 3, 6, 0}[use], []int{3, 6, 9, 9}[use]
			for i := from; i < to; i++ {
				switch x.Dev(4) {
				case 1:
					fmt.Fprintf(&b, "# above %d\n%s\n", i, ls[i])
				case 2:
					fmt.Fprintf(&b, "%s # beside %d\n", ls[i], i)
				case 3:
					fmt.Fprintf(&b, "# far %d\n\n%s\n", i, ls[i])
				default:
					b.WriteString(ls[i] + "\n")
				}
			}
			def := x.Choose(5)
			doc := x.Bool()
			if doc {
				b.WriteString("# the doc\n")
			}
			b.WriteString([]string{"type Al: int", "enum En: int\n  - A", "struct St", "struct St\n  - x: int", "service Sv\n  - M()"}[def] + "\n")
			text := b.String()
			if !w.Mine(func() string { return text }) {
				return
			}
			w.Step(1)
			lib := NewDoc(&Struct{Name: "Lib"}).RIDL()
			oth := NewDoc(&Struct{Name: "Libb"}).RIDL()
			s, err := parseFS(memFS{"a.ridl": text, "lib.ridl": lib, "other.ridl": oth}, "a.ridl")
			if err != nil {
				w.Fail("rejected", "a valid document was rejected: %v", err)
				return
			}
			got := map[string]string{}
			for _, t := range s.Types {
				got[t.Name] = strings.Join(t.Comments, "|")
				for _, f := range t.Fields {
					got[t.Name+"."+f.Name] = strings.Join(f.Comments, "|")
				}
			}
			for _, v := range s.Services {
				got[v.Name] = strings.Join(v.Comments, "|")
				for _, m := range v.Methods {
					got[v.Name+"."+m.Name] = strings.Join(m.Comments, "|")
				}
			}
			for _, n := range sortedKeys(got) {
				want := ""
				if doc && (n == "Al" || n == "St" || n == "Sv") {
					want = "the doc"
				}
				w.State(n + want)
				if got[n] != want {
					w.Fail("differs", "%s: doc comment %q, want %q", n, got[n], want)
				}
			}
		},
	}
}

// p19Files: files whose comments stand at the same lines don't share them.
func p19Files(w *engine.W) *engine.Family {
	max := engine.Pick(w, 25, 60)
	return &engine.Family{
		Name: "files", Bound: fmt.Sprintf("an importing and an imported file with comments at lines shifted against each other by 0..%d, every definition with a doc comment, trailing comment or none in turn", max),
		Run: func(x *engine.X, w *engine.W) {
			a, b := x.Choose(max+1), x.Choose(3)
			ka, kb := x.Choose(4), x.Choose(4)
			build := func() (Files, memFS) {
				root, lib := p19Small(), p19Small()
				lib.Items = lib.Items[4:] // without headers and import
				lib.Items = append([]any{&Head{Key: "webrpc", Val: W("v1")}, &Head{Key: "version", Val: W("v1")}}, lib.Items...)
				for _, it := range lib.Items {
					switch v := it.(type) {
					case *Alias:
						v.Name = "L" + v.Name
					case *Enum:
						v.Name = "L" + v.Name
					case *Struct:
						v.Name = "L" + v.Name
					case *Err:
						v.Name, v.Code = "L"+v.Name, "9"
					case *Svc:
						v.Name = "L" + v.Name
					}
				}
				cs, _ := root.sites()
				for i, c := range cs {
					c.put([]int{0, 1, 2, i % 3}[ka], i)
				}
				cs, _ = lib.sites()
				for i, c := range cs {
					c.put([]int{0, 1, 2, (i + 1) % 3}[kb], 100+i)
				}
				fs := Files{"a.ridl": root, "lib.ridl": lib}
				m := fs.fs()
				m["lib.ridl"] = strings.Repeat("\n", a) + m["lib.ridl"]
				m["a.ridl"] = strings.Repeat("# pad\n\n", b) + m["a.ridl"]
				return fs, m
			}
			if w.Mine(func() string { _, m := build(); return m["a.ridl"] + "=====\n" + m["lib.ridl"] }) {
				f, m := build()
				want, ok, _ := f.Expect("a.ridl")
				s, err := parseFS(m, "a.ridl")
				judge(w, s, err, want, ok)
			}
		},
	}
}

// p19First: a commented definition begins the file, the headers follow it.
func p19First(w *engine.W) *engine.Family {
	mk := []func() any{
		func() any { return &Alias{Name: "Al", T: N("string")} },
		func() any { return &Alias{Name: "Al", T: N("string"), Meta: []Meta{{Key: "k", Val: W("v")}}} },
		func() any { return &Enum{Name: "En", T: "int", Mem: []Member{{Name: "A"}, {Name: "B"}}} },
		func() any { return &Struct{Name: "St"} },
		func() any {
			return &Struct{Name: "St", Fields: []Field{{Name: "x", T: N("string")}, {Name: "y", T: N("int")}}}
		},
		func() any { return &Err{Code: "1", Name: "Ea", Msg: Q("a")} },
		func() any { return &Svc{Name: "Sv", Methods: []Method{{Name: "Ma"}}} },
		func() any { return &Svc{Name: "Sv", Methods: []Method{{Name: "Ma", Ann: []Ann{{Name: "a"}}}}} },
		func() any { return &Imp{Path: W("lib.ridl")} },
		func() any { return &Head{Key: "basepath", Val: Q("/x")} },
	}
	return &engine.Family{
		Name: "first-line", Budget: 2, Bound: fmt.Sprintf("each of %d kinds of definitions at the beginning of a file, before the headers, with %d kinds of comments at up to 2 of its lines, or 0..9 doc lines, after 0..2 blank lines", len(mk), p19Kinds-1),
		Run: func(x *engine.X, w *engine.W) {
			k, blank, long := x.Choose(len(mk)), x.Choose(3), x.Bool()
			one := &Doc{}
			one.Add(mk[k]())
			cs, _ := one.sites()
			if long {
				n := x.Choose(10)
				for i := 0; i < n; i++ {
					cs[0].Doc = append(cs[0].Doc, fmt.Sprintf("line %d", i))
				}
			} else {
				for i, c := range cs {
					c.put(x.Dev(p19Kinds), i)
				}
			}
			one.Add(&Head{Key: "version", Val: W("v1")}, &Head{Key: "webrpc", Val: W("v1")})
			text := strings.Repeat("\n", blank) + one.tight()
			if w.Mine(func() string { return text }) {
				p19Check(w, one, text)
			}
		},
	}
}

// p19Ends: comments at the very start and the very end of a file.
func p19Ends() *engine.Family {
	ends := []string{"", "\n", " # end", " # end\n", "\n# end", "\n# end\n", "\n\n# end", " #", " #!", " # end\r\n", " #\tend ", "\n#", "\n#\n#\n", " # a # b"}
	starts := []string{"", "# start\n", "# start\n\n", "#!start\n", "\n# start\n", "#\n", "# start # more\r\n"}
	return &engine.Family{
		Name: "ends", Bound: fmt.Sprintf("%d starts and %d ends of a file, the last line being each of 9 kinds", len(starts), len(ends)),
		Run: func(x *engine.X, w *engine.W) {
			st, en, k := starts[x.Choose(len(starts))], ends[x.Choose(len(ends))], x.Choose(9)
			build := func() (*Doc, string) {
				d := NewDoc([]any{
					&Alias{Name: "Al", T: N("string")},
					&Alias{Name: "Al", T: N("string"), Meta: []Meta{{Key: "k", Val: W("v")}}},
					&Enum{Name: "En", T: "int", Mem: []Member{{Name: "A"}}},
					&Enum{Name: "En", T: "int", Mem: []Member{{Name: "A", Val: lp(Q("3"))}}},
					&Struct{Name: "St"},
					&Struct{Name: "St", Fields: []Field{{Name: "x", T: L(N("string"))}}},
					&Err{Code: "1", Name: "Ea", Msg: Q("a")},
					&Svc{Name: "Sv", Methods: []Method{{Name: "Ma"}}},
					&Head{Key: "basepath", Val: Q("/x")},
				}[k])
				text := st + strings.TrimRight(d.RIDL(), "\n") + en
				if i := strings.Index(en, "#"); i >= 0 && en[0] == ' ' {
					t := strings.TrimSpace(en[i+1:])
					cs, _ := d.sites()
					cs[len(cs)-1].Trail = &t
				}
				return d, text
			}
			if w.Mine(func() string { _, t := build(); return t }) {
				d, t := build()
				p19Check(w, d, t)
			}
		},
	}
}

// p19Many: many comments in one file.
func p19Many(w *engine.W) *engine.Family {
	var ns []int
	for i := 1; i <= engine.Pick(w, 20, 300); i++ {
		ns = append(ns, i)
	}
	for _, n := range engine.Pick(w, []int{32, 64, 100, 128, 200, 256, 300, 512, 1024}, []int{400, 500, 512, 1000, 1023, 1024, 2000, 4096, 10000}) {
		ns = append(ns, n, n+1)
	}
	cm := func(how, i int) Cm {
		s := fmt.Sprint(i)
		switch how {
		case 0:
			return Cm{Doc: []string{"doc " + s}}
		case 1:
			return Cm{Trail: str("trail " + s)}
		case 2:
			return Cm{Far: []string{"far " + s}}
		}
		if i%3 == 0 {
			return Cm{Doc: []string{"doc " + s, "!hidden", "more"}, Trail: str("trail")}
		}
		return Cm{}
	}
	const kinds = 8
	return &engine.Family{
		Name: "many", Bound: fmt.Sprintf("%d numbers up to %d of lines with comments, in %d kinds of definitions, commented in 4 ways, before or after a small document with and without comments", len(ns), ns[len(ns)-1], kinds),
		Run: func(x *engine.X, w *engine.W) {
			n, kind, how := ns[x.Choose(len(ns))], x.Choose(kinds), x.Choose(4)
			after, bare := x.Bool(), x.Bool()
			if !w.Mine(func() string { return fmt.Sprint(n, kind, how, after, bare) }) {
				return
			}
			var many []any
			st, en, sv := &Struct{Name: "Many"}, &Enum{Name: "Many", T: "int"}, &Svc{Name: "Many"}
			for i := 0; i < n; i++ {
				name := fmt.Sprintf("N%d", i)
				c := cm(how, i)
				switch kind {
				case 0:
					st.Fields = append(st.Fields, Field{Name: name, T: N("int"), Cm: c})
				case 1:
					en.Mem = append(en.Mem, Member{Name: name, Cm: c})
				case 2:
					sv.Methods = append(sv.Methods, Method{Name: name, Cm: c})
				case 3:
					many = append(many, &Alias{Name: name, T: N("int"), Cm: c})
				case 4:
					many = append(many, &Err{Code: fmt.Sprint(1000 + i), Name: name, Msg: Q("m"), Cm: c})
				case 5:
					many = append(many, &Struct{Name: name, Cm: c})
				case 6:
					sv.Methods = append(sv.Methods, Method{Name: name, Ann: []Ann{{Name: "a"}}, Cm: c})
				case 7: // in one block
					if how == 2 {
						st.Far = append(st.Far, c.Far...)
					} else {
						st.Doc = append(st.Doc, c.Doc...)
					}
				}
			}
			switch kind {
			case 0, 7:
				many = []any{st}
			case 1:
				many = []any{en}
			case 2, 6:
				many = []any{sv}
			}
			d := p19Small()
			if !bare {
				cs, _ := d.sites()
				for i, c := range cs {
					c.Doc = append(c.Doc, fmt.Sprintf("about %d", i))
					c.Trail = str("end")
				}
			}
			if after {
				d.Items = append(d.Items, many...)
			} else {
				var heads, rest []any
				for _, it := range d.Items {
					if _, is := it.(*Head); is {
						heads = append(heads, it)
					} else {
						rest = append(rest, it)
					}
				}
				d.Items = append(append(heads, many...), rest...)
			}
			p19Check(w, d, d.RIDL())
		},
	}
}

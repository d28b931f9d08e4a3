package main

import (
	"fmt"
	"strings"

	"github.com/webrpc/webrpc/schema/ridl"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P17",
		Rule: "An execution puts one quoted literal at one place of a document, parses it and compares acceptance and the whole schema with the reference; a state is a distinct literal text.",
		Assumptions: []string{
			"literals are valid UTF-8; a literal closed before the end of its text is judged only by the rule that what follows must not be ignored",
			"import paths stay within what a file name can be (no NUL, no '.' and '..' elements, no empty elements)",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p17Values(w), p17Raw(w), p17Scalars(w), p17Pairs(w), p17Length(w), p17Unclosed(), p17All(w), p17Escapes(), p17Imports(w), p17Words(w)}
		},
	})
}

const p17Places = 9

// p17Doc is a document with the literal at one place, amid other definitions.
func p17Doc(l Lit, place int) *Doc { return p17Docs(map[int]Lit{place: l}) }

func p17Docs(at map[int]Lit) *Doc {
	p := func(i int, def Lit) Lit {
		if l, ok := at[i]; ok {
			return l
		}
		return def
	}
	d := &Doc{}
	d.Add(&Head{Key: "webrpc", Val: W("v1")}, &Head{Key: "name", Val: p(0, W("n"))}, &Head{Key: "version", Val: p(1, Q("v 1"))})
	d.Add(
		&Alias{Name: "Al", T: N("string"), Meta: []Meta{{Key: "k", Val: W("v")}, {Key: "k.x", Val: p(2, Q("y"))}, {Key: "z", Val: W("v")}}},
		&Enum{Name: "En", T: "string", Mem: []Member{{Name: "A", Val: lp(p(3, Q("a b")))}, {Name: "B"}}},
		&Struct{Name: "St", Fields: []Field{{Name: "f", T: N("int"), Opt: true, Meta: []Meta{{Key: "m", Val: p(4, W("v"))}}}, {Name: "g", T: N("Al")}}},
		&Err{Code: "1", Name: "Er", Msg: p(5, Q("it failed")), HTTP: "404"},
		&Err{Code: "2", Name: "Es", Msg: p(6, Q("again"))},
		&Svc{Name: "V", Methods: []Method{
			{Name: "M", Ann: []Ann{{Name: "x", Val: lp(p(7, W("y")))}, {Name: "z"}}, In: []Arg{{Name: "a", T: N("St")}}},
			{Name: "N", Ann: []Ann{{Name: "q"}, {Name: "w", Val: lp(p(8, Q("y")))}}, HasOut: true, Errs: []string{"Er"}},
			{Name: "P", Ann: []Ann{{Name: "r"}}, Proxy: true}}},
	)
	return d
}

// raw renders the document with a literal written in a certain way.
func p17Text(literal string, place int) string {
	const mark = "Placeholder of the literal"
	return strings.Replace(p17Doc(Q(mark), place).RIDL(), `"`+mark+`"`, literal, 1)
}

// refLiteral reads a literal: its value, whether it is good, and what follows it.
func refLiteral(s string) (val string, ok bool, rest string) {
	if !strings.HasPrefix(s, `"`) {
		return "", false, s
	}
	ok = true
	var b strings.Builder
	i := 1
	for i < len(s) && s[i] != '\n' {
		switch s[i] {
		case '"':
			return b.String(), ok && b.Len() > 0, s[i+1:]
		case '\\':
			i++
			if i >= len(s) {
				return "", false, ""
			}
			switch s[i] {
			case 'n':
				b.WriteByte('\n')
			case 't':
				b.WriteByte('\t')
			case '"':
				b.WriteByte('"')
			default:
				ok = false
			}
			if s[i] == '\n' {
				return "", false, s[i:]
			}
		default:
			b.WriteByte(s[i])
		}
		i++
	}
	return "", false, s[i:]
}

func literal(w *engine.W, text string, place int) bool {
	val, ok, rest := refLiteral(text)
	w.State(text)
	doc := p17Text(text, place)
	s, err := parseText(doc)
	w.Step(1)
	o := outcome(s, err)
	if strings.Trim(rest, " ") != "" && ok {
		// closed early: the rest must not be ignored unless it is a comment
		if t := strings.TrimLeft(rest, " "); t[0] == '#' || t[0] == '@' || strings.HasPrefix(t, "HTTP") {
			return true
		}
		if o.OK {
			w.Fail("ignored", "the text after the literal was ignored: %s", o.NoDc)
			return false
		}
		return true
	}
	if !ok {
		if o.OK {
			w.Fail("accepted", "a bad literal was accepted: %s", o.NoDc)
			return false
		}
		return true
	}
	want, good := p17Doc(Q(val), place).Expect()
	if !good {
		w.Fail("harness", "the harness generated an invalid document")
		return false
	}
	if !o.OK {
		w.Fail("rejected", "rejected: %v", err)
		return false
	}
	if exp := want.String(); exp != o.Dump {
		w.Fail("differs", "the schema differs:\n%s", diff(exp, o.Dump))
		return false
	}
	return true
}

func p17Case(w *engine.W, text string, place int) {
	if w.Mine(func() string { return p17Text(text, place) }) {
		literal(w, text, place)
	}
}

// p17Values: all short values over special characters.
func p17Values(w *engine.W) *engine.Family {
	ws := words([]string{"a", " ", "#", "@", "/", "//", "\"", "\n", "\t", "<", ">", "[", "(", "{", "]", ")", "}", ":", "=", "=>", "+", "-", "?", "!", ",", "|", "é", "日", "'", "¿", "¡", "0", "%"}, 1, engine.Pick(w, 2, 3))
	return &engine.Family{
		Name: "values", Bound: fmt.Sprintf("all %d values of 1..%d pieces out of 33 special ones at %d places", len(ws), engine.Pick(w, 2, 3), p17Places),
		Run: func(x *engine.X, w *engine.W) {
			v := ws[x.Choose(len(ws))]
			p17Case(w, quote(v), x.Choose(p17Places))
		},
	}
}

// p17Raw: all short raw texts between quotes.
func p17Raw(w *engine.W) *engine.Family {
	alpha := []string{`\`, "n", "t", `"`, "a", "#", " ", "/", "é", "@"}
	n := engine.Pick(w, 4, 5)
	ws := words(alpha, 0, n)
	return &engine.Family{
		Name: "raw", Bound: fmt.Sprintf("all %d raw texts of up to %d pieces out of %d between quotes, at 3 (thorough %d) places", len(ws), n, len(alpha), p17Places),
		Run: func(x *engine.X, w *engine.W) {
			v := ws[x.Choose(len(ws))]
			pl := []int{5, 3, 7}
			place := 0
			if w.Thorough() {
				place = x.Choose(p17Places)
			} else {
				place = pl[x.Choose(3)]
			}
			p17Case(w, `"`+v+`"`, place)
		},
	}
}

// p17Scalars: every Unicode scalar.
func p17Scalars(w *engine.W) *engine.Family {
	const chunk = 32
	single := engine.Pick(w, 0x600, 0x3400)
	return &engine.Family{
		Name: "scalars", Bound: fmt.Sprintf("every Unicode scalar, %d at a time, at each place (alone below %#x)", chunk, single),
		Run: func(x *engine.X, w *engine.W) {
			var s strings.Builder
			if x.Bool() {
				r := rune(x.Choose(single))
				if r == 0 || r == '\n' || r == '\r' || r == '"' || r == '\\' {
					return
				}
				s.WriteRune(r)
			} else {
				from := rune(chunk * x.Choose(0x110000/chunk))
				for r := from; r < from+chunk; r++ {
					if r != 0 && r != '\n' && r != '\r' && r != '"' && r != '\\' && (r < 0xd800 || r > 0xdfff) {
						s.WriteRune(r)
					}
				}
				if s.Len() == 0 {
					return
				}
			}
			place := 0
			if w.Thorough() {
				place = x.Choose(p17Places)
			} else {
				place = []int{5, 8}[x.Choose(2)]
			}
			p17Case(w, `"`+s.String()+`"`, place)
		},
	}
}

// p17Pairs: the same special value at two places.
func p17Pairs(w *engine.W) *engine.Family {
	vals := []string{"#", "a # b", "\"", "\n\"", " ", "@x", "//", "HTTP 500", "é\"", "- x", "service X", "\t", "\n", "]", "=> (a: int)", "<a,b>", "error 1 X \"y\"", "webrpc = v2"}
	return &engine.Family{
		Name: "pairs", Bound: fmt.Sprintf("all pairs of %d values at all pairs of %d places", len(vals), p17Places),
		Run: func(x *engine.X, w *engine.W) {
			a, b := x.Choose(len(vals)), x.Choose(len(vals))
			p, q := x.Choose(p17Places), x.Choose(p17Places)
			if q <= p {
				return
			}
			build := func() *Doc {
				d := p17Doc(Q(vals[a]), p)
				e := p17Doc(Q(vals[b]), q)
				// take every item that differs in e
				f := p17Doc(Q("x"), -1)
				for i := range d.Items {
					if fmt.Sprint(dumpItem(e.Items[i])) != fmt.Sprint(dumpItem(f.Items[i])) {
						if dumpItem(d.Items[i]) != dumpItem(f.Items[i]) {
							return nil // both in one definition
						}
						d.Items[i] = e.Items[i]
					}
				}
				return d
			}
			d := build()
			if d == nil {
				return
			}
			run(w, d)
		},
	}
}

func dumpItem(it any) string { return (&Doc{Items: []any{it}}).RIDL() }

func p17Length(w *engine.W) *engine.Family {
	n := engine.Pick(w, 300, 4200)
	return &engine.Family{
		Name: "lengths", Bound: fmt.Sprintf("values of length 1..%d and of 2^k and its neighbours up to 2^%d, of 9 kinds of pieces, at each place", n, engine.Pick(w, 16, 20)),
		Run: func(x *engine.X, w *engine.W) {
			big := engine.Pick(w, 16, 20) - 8
			i := x.Choose(n + 3*big)
			k := i + 1
			if i >= n {
				i -= n
				k = 1<<(9+i/3) + i%3 - 1
			}
			piece := []string{"a", "é", `\n`, `# `, "a.", "=> ", `\"`, "@a(1,", "x"}[x.Choose(9)]
			if piece == "x" && i < n {
				piece = "-a b:[c]?" // every kind of token, but not as often
			}
			place := []int{5, 3, 8}[x.Choose(3)]
			text := func() string { return `"` + strings.Repeat(piece, k) + `"` }
			if w.Mine(func() string { return fmt.Sprintf("%d times %q at place %d", k, piece, place) }) {
				literal(w, text(), place)
			}
		},
	}
}

// p17Unclosed: a literal not closed on its line.
func p17Unclosed() *engine.Family {
	vals := []string{`"`, `"a`, `"a b`, `"a\"`, `"a\`, `"a # "b`, "\"a\nb\"", "\"a\n\"", "\"\n\"", "\"a\\\nb\"", "\"a\r\nb\"", `""`, `"" "a"`, `" "" "`, "\"a\\n\nb\"", `"a` + "\x00"}
	return &engine.Family{
		Name: "unclosed", Bound: fmt.Sprintf("%d badly closed literals at %d places, with or without a line that holds another quote after it, at the end of the file or not", len(vals), p17Places),
		Run: func(x *engine.X, w *engine.W) {
			v := vals[x.Choose(len(vals))]
			place := x.Choose(p17Places)
			tail := []string{"", "\n# a \" quote\n", "\nerror 9 Last \"x\"\n", "\""}[x.Choose(4)]
			cut := x.Bool()
			if cut && tail == "\"" {
				return
			}
			text := func() string {
				const mark = "Placeholder of the literal"
				t := p17Doc(Q(mark), place).RIDL()
				i := strings.Index(t, `"`+mark+`"`)
				if cut {
					return t[:i] + v + tail
				}
				return t[:i] + v + t[i+len(mark)+2:] + tail
			}
			if !w.Mine(text) {
				return
			}
			s, err := parseText(text())
			w.Step(1)
			w.State(text())
			if (s == nil) == (err == nil) {
				w.Fail("both-or-neither", "schema %v and error %v", s != nil, err)
			} else if err == nil {
				w.Fail("accepted", "accepted: %s", Real(s))
			}
		},
	}
}

// p17All: the same value at all places at once.
func p17All(w *engine.W) *engine.Family {
	ws := words([]string{"a", " ", "#", "\"", "\n", "é", "@", "/"}, 1, engine.Pick(w, 4, 5))
	return &engine.Family{
		Name: "everywhere", Bound: fmt.Sprintf("each of %d values at all places at once", len(ws)),
		Run: func(x *engine.X, w *engine.W) {
			v := Q(ws[x.Choose(len(ws))])
			d := &Doc{}
			d.Add(&Head{Key: "webrpc", Val: Q("v1")}, &Head{Key: "name", Val: v}, &Head{Key: "version", Val: v},
				&Alias{Name: "Al", T: N("string"), Meta: []Meta{{Key: "k", Val: v}, {Key: "k", Val: v}}},
				&Enum{Name: "En", T: "string", Mem: []Member{{Name: "A", Val: &v}, {Name: "B", Val: &v}}},
				&Struct{Name: "St", Fields: []Field{{Name: "f", T: N("int"), Meta: []Meta{{Key: "m", Val: v}}}}},
				&Err{Code: "1", Name: "Er", Msg: v, HTTP: "404"}, &Err{Code: "2", Name: "Es", Msg: v},
				&Svc{Name: "V", Methods: []Method{{Name: "M", Ann: []Ann{{Name: "x", Val: &v}, {Name: "y", Val: &v}, {Name: "z", Val: &v, NL: true}}}}})
			run(w, d)
		},
	}
}

// p17Escapes: a backslash before every character.
func p17Escapes() *engine.Family {
	at := []string{`"\%s"`, `"a\%sb"`, `"\n\%s"`, `"\%s\%s"`}
	return &engine.Family{
		Name: "escapes", Bound: "a backslash before every character below U+0180, in 4 contexts, at each place",
		Run: func(x *engine.X, w *engine.W) {
			r := rune(1 + x.Choose(0x17f))
			c := x.Choose(4)
			place := x.Choose(p17Places)
			if r == '\n' || r == '\r' {
				return
			}
			t := strings.ReplaceAll(at[c], "%s", string(r))
			p17Case(w, t, place)
		},
	}
}

// p17Imports: import paths.
func p17Imports(w *engine.W) *engine.Family {
	ws := words([]string{"a", " ", "#", "@", "\"", "\n", "\t", "é", "%20", ":", "=", ",", "(", "日", "//", "-", "?"}, 1, engine.Pick(w, 2, 3))
	return &engine.Family{
		Name: "import-paths", Bound: fmt.Sprintf("%d file names in single imports, lists of imports and imports with members", len(ws)),
		Run: func(x *engine.X, w *engine.W) {
			name := ws[x.Choose(len(ws))]
			shape := x.Choose(3)
			sub := x.Bool()
			if strings.Contains(name, "/") {
				if strings.Contains(name, "//") {
					name = strings.ReplaceAll(name, "//", "/x")
				}
				name = "d" + name
			}
			name += ".ridl"
			if sub {
				name = "dir/" + name
			}
			build := func() (memFS, *Doc) {
				im := &Imp{Path: Q(name)}
				d := NewDoc()
				other := &Imp{Path: Q("other.ridl")}
				switch shape {
				case 0:
					d.Add(im, other)
				case 1:
					im.InList, other.InList = true, true
					d.Add(other, im)
				case 2:
					im.Members = []string{"Got"}
					d.Add(im, other)
				}
				return memFS{"root.ridl": d.Add(&Struct{Name: "S", Fields: []Field{{Name: "g", T: N("Got")}}}).RIDL(), name: NewDoc(&Struct{Name: "Got"}).RIDL(), "other.ridl": NewDoc(&Struct{Name: "Other"}).RIDL()}, d
			}
			if !w.Mine(func() string { f, _ := build(); return fmt.Sprintf("%q\n%s", name, f["root.ridl"]) }) {
				return
			}
			f, _ := build()
			w.Step(1)
			w.State(name)
			s, err := ridl.NewParser(f, "/", "root.ridl").Parse()
			if err != nil {
				w.Fail("rejected", "importing %q failed: %v", name, err)
				return
			}
			want := []string{"Got", "Other", "S"}
			if shape == 1 {
				want = []string{"Other", "Got", "S"}
			}
			var got []string
			for _, t := range s.Types {
				got = append(got, t.Name)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				w.Fail("differs", "types %v instead of %v", got, want)
			}
		},
	}
}

// p17Words: a quoted text that looks like the rest of a document.
func p17Words(w *engine.W) *engine.Family {
	var vals []string
	for _, l := range strings.Split(rich().RIDL(), "\n") {
		if strings.TrimSpace(l) != "" && !strings.Contains(l, `\`) {
			vals = append(vals, l)
		}
	}
	vals = append(append(vals, wordValues...), markValues...)
	return &engine.Family{
		Name: "lines", Bound: fmt.Sprintf("each of %d lines of a document with every construct and words and numbers of every kind, as a value at each place", len(vals)),
		Run: func(x *engine.X, w *engine.W) {
			v := vals[x.Choose(len(vals))]
			p17Case(w, quote(v), x.Choose(p17Places))
		},
	}
}

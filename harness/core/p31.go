package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P31",
		Rule: "An execution parses one document (or set of files) with an edit that breaks it, reads the place out of the error and compares it with the place of the edit and with the text there; a state is a distinct place and shown text.",
		Assumptions: []string{
			"errors that give no place are about names, types or files and not about syntax",
			"an annotation that belongs to no method may be reported at the definition that follows it",
			"the end of the file may be reported on the line of the last line break",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p31Strays(w), p31Tokens(w), p31Cut(w), p31Gone(w), p31Two(w), p31Far(w), p31Wide(w), p31Imports(w)}
		},
	})
}

var placeRE = regexp.MustCompile(`(?s)^(?:.*?: )?(\d+):(\d+): error near ("(?:[^"\\]|\\.)*"): (.*)$`)

// place is where an error says that it is.
type place struct {
	line, col int
	near, msg string
}

func placed(err error) (p place, ok bool) {
	m := placeRE.FindStringSubmatch(err.Error())
	if m == nil {
		return
	}
	p.line, _ = strconv.Atoi(m[1])
	p.col, _ = strconv.Atoi(m[2])
	near, e := strconv.Unquote(m[3])
	p.near, p.msg = near, m[4]
	return p, e == nil
}

// shows tells whether the text of the place is really there.
func (p place) shows(text string) bool {
	lines := strings.SplitAfter(text, "\n")
	if p.line < 1 || p.line > len(lines) {
		return false
	}
	l := []rune(lines[p.line-1])
	return p.col >= 1 && p.col <= len(l) && strings.HasSuffix(string(l[:p.col]), p.near) ||
		p.near == "" && p.col >= 0 && p.col <= len(l)+1
}

// pinned parses a document that is right but for the lines from..to (from 1)
// and checks the place that its error gives.
func pinned(w *engine.W, text string, from, to int, must bool) (place, bool) {
	w.Step(1)
	_, err := parseText(text)
	if err == nil {
		return place{}, false
	}
	p, ok := placed(err)
	if !ok {
		if must {
			w.Fail("no-place", "the error doesn't tell where line %d is wrong: %v", from, err)
		}
		return p, false
	}
	w.State(fmt.Sprint(p.line, p.col, p.near))
	if !p.shows(text) {
		w.Fail("not-there", "the error shows text that isn't at its place: %v\nline %d is %q", err, p.line, lineOf(text, p.line))
		return p, false
	}
	if p.line < from || p.line > to {
		w.Fail("other-line", "line %d is wrong (%q), but the error is: %v", from, lineOf(text, from), err)
		return p, false
	}
	return p, true
}

func lineOf(text string, n int) string {
	if l := strings.Split(text, "\n"); n >= 1 && n <= len(l) {
		return l[n-1]
	}
	return ""
}

// end is the last line on which the error of an edit of line i may be.
func end(line string, i, n int) int {
	if strings.Contains(line, "@") {
		return n
	}
	return i
}

// edited is a document with its line i (from 0) replaced.
func edited(lines []string, i int, by, eol string) string {
	l := append([]string{}, lines...)
	l[i] = by
	return strings.Join(l, eol)
}

func p31Lines() []string { return strings.Split(rich().RIDL(), "\n") }

// p31Strays: characters that belong nowhere, at every place.
func p31Strays(w *engine.W) *engine.Family {
	strays := []string{" %", "%", " )", " <", " = = =", "\"", " %\"", " [", "\x00", "@", "@x", "=>", "\\", "\"\\", "é", "(", " ,", ":", " : ", "-", "+", "?", "/", "=", ">", ".", "..", "'", "`", "$", "&", ";", "{", "}", "|", "!", "~", "^", "*", "_", "\t%", "\r", " x", " 7"}
	eols := engine.Pick(w, []string{"\n"}, []string{"\n", "\r\n"})
	return &engine.Family{
		Name:  "strays",
		Bound: fmt.Sprintf("%d pieces of text put in at every place of every line of a document of every construct, with %d kinds of line ends", len(strays), len(eols)),
		Run: func(x *engine.X, w *engine.W) {
			lines := p31Lines()
			stray, eol := strays[x.Choose(len(strays))], eols[x.Choose(len(eols))]
			i := x.Choose(len(lines))
			l := lines[i]
			pos := x.Choose(len(l) + 1)
			l = l[:pos] + stray + l[pos:]
			if w.Mine(func() string { return edited(lines, i, l, eol) }) {
				pinned(w, edited(lines, i, l, eol), i+1, end(l, i+1, len(lines)), false)
			}
		},
	}
}

// lexemes splits a line into words, blanks and single other characters.
func lexemes(l string) []string {
	return regexp.MustCompile(`[A-Za-z0-9_]+|[ \t]+|(?s:.)`).FindAllString(l, -1)
}

// p31Tokens: a token that is missing, doubled, another one, or on the next line.
func p31Tokens(w *engine.W) *engine.Family {
	subst := []string{"", "Zz", "7", "-", "+", "=", ":", "?", "(", ")", "<", ">", ",", "[", "]", "=>", "|", "@", "\"", "\"q\"", "#", "struct", "enum", "service", "error", "type", "import", "stream", "map", "null", " ", "\t", "\n"}
	return &engine.Family{
		Name:  "tokens",
		Bound: fmt.Sprintf("%d texts in the place of, or before, every token of a document of every construct, and tokens exchanged with the next", len(subst)),
		Run: func(x *engine.X, w *engine.W) {
			lines := p31Lines()
			i := x.Choose(len(lines))
			ts := lexemes(lines[i])
			if len(ts) == 0 {
				return
			}
			j := x.Choose(len(ts))
			to := i + 1
			switch x.Choose(3) {
			case 0:
				s := subst[x.Choose(len(subst))]
				if s == "\n" {
					to++
				}
				ts[j] = s
			case 1:
				s := subst[x.Choose(len(subst))]
				if s == "\n" {
					to++
				}
				ts[j] = s + ts[j]
			case 2:
				if j+1 == len(ts) {
					return
				}
				ts[j], ts[j+1] = ts[j+1], ts[j]
			}
			l := strings.Join(ts, "")
			if w.Mine(func() string { return edited(lines, i, l, "\n") }) {
				// the line may have become right, and the next ones wrong
				w.Step(1)
				if _, err := parseText(edited(lines[:i+1], i, l, "\n") + "\n"); err == nil {
					to = len(lines) + 1
				} else if _, ok := placed(err); !ok {
					to = len(lines) + 1
				}
				if i > 0 {
					to = end(lines[i-1], to, len(lines))
				}
				pinned(w, edited(lines, i, l, "\n"), i+1, end(l, to, len(lines)), false)
			}
		},
	}
}

// p31Cut: a document that ends too early.
func p31Cut(w *engine.W) *engine.Family {
	tails := []string{"", " ", "\t", "\r", " %", "\"", " #", " # c", "@", "\\", "\n%", "\n \t%", "\n\n\n)", "\n\"", "\n# c\n<"}
	return &engine.Family{
		Name:  "cut",
		Bound: fmt.Sprintf("a document of every construct ending after every character, with %d tails and 2 kinds of line ends", len(tails)),
		Run: func(x *engine.X, w *engine.W) {
			text := rich().RIDL()
			i, tail := x.Choose(len(text)+1), tails[x.Choose(len(tails))]
			text = text[:i] + tail
			if x.Bool() {
				text = strings.ReplaceAll(text, "\n", "\r\n")
			}
			if !w.Mine(func() string { return text }) {
				return
			}
			// the text that is wrong starts where the document is cut or in
			// the tail; of an empty last line the line break belongs to the
			// line before
			lines := strings.Split(text, "\n")
			from, to := strings.Count(text[:len(text)-len(tail)], "\n"), len(lines)
			if i := len(lines) - strings.Count(tail, "\n"); i > 0 {
				from = i
			}
			if strings.TrimSpace(lines[from-1]) == "" && from > 1 {
				from--
			}
			pinned(w, text, from, to, false)
		},
	}
}

// p31Gone: whole lines missing, doubled or elsewhere.
func p31Gone(w *engine.W) *engine.Family {
	return &engine.Family{
		Name:  "lines",
		Bound: "every line of a document of every construct left out, doubled, or moved to every other place",
		Run: func(x *engine.X, w *engine.W) {
			lines := p31Lines()
			i := x.Choose(len(lines))
			l := lines[i]
			at := i
			lines = append(append([]string{}, lines[:i]...), lines[i+1:]...)
			if x.Bool() {
				at = x.Choose(len(lines) + 1)
				lines = append(lines[:at], append([]string{l}, lines[at:]...)...)
			}
			text := strings.Join(lines, "\n")
			if w.Mine(func() string { return text }) {
				pinned(w, text, min(i, at)+1, len(lines), false)
			}
		},
	}
}

// p31Two: of two wrong lines, the first.
func p31Two(w *engine.W) *engine.Family {
	bad := []string{"%", "  %", ")", "struct", "struct 7x y", "  - a", "  - \"", "\"", "enum E int", "error x", "= v", "type T", "  ] ,", "import", "service S S"}
	eols := []string{"\n", "\r\n"}
	if !w.Thorough() {
		bad, eols = []string{"  %", ")", "struct", "struct 7x y", "  - \"", "\"", "error x", "type T", "import"}, eols[:1]
	}
	gap := engine.Pick(w, 1, 12)
	return &engine.Family{
		Name:  "two",
		Bound: fmt.Sprintf("all ordered pairs of %d wrong lines up to %d lines apart, or one at the end, between any lines of a document", len(bad), gap),
		Run: func(x *engine.X, w *engine.W) {
			lines := p31Lines()
			a, b := bad[x.Choose(len(bad))], bad[x.Choose(len(bad))]
			i := x.Choose(len(lines))
			j := len(lines)
			if k := x.Choose(gap + 1); k < gap && i+k < len(lines) {
				j = i + k
			}
			eol := eols[x.Choose(len(eols))]
			l := append([]string{}, lines[:i]...)
			l = append(append(append(l, a), lines[i:j]...), b)
			l = append(l, lines[j:]...)
			text := strings.Join(l, eol)
			if !w.Mine(func() string { return text }) {
				return
			}
			one := append(append(append([]string{}, lines[:i]...), a), lines[i:]...)
			w.Step(1)
			_, err := parseText(strings.Join(one, eol))
			if err == nil {
				return
			}
			p, ok := placed(err)
			if !ok || p.line > i+1 {
				return
			}
			w.State(fmt.Sprint(p))
			_, err2 := parseText(text)
			if err2 == nil {
				w.Fail("two-accepted", "accepted with wrong lines %d and %d", i+1, j+2)
			} else if q, ok := placed(err2); !ok || q != p {
				w.Fail("second", "line %d is wrong in the same way as in\n%v\nbut the error is\n%v", i+1, err, err2)
			}
		},
	}
}

// breaks are lines that are wrong by themselves after any definition, with the
// place and the text that are shown.
var breaks = []string{"%", " \t%", "struct", "struct Aa %", "struct # c", "enum Ee: %", "enum Ee", "type Tt", "type Tt: [", "type Tt: map<string", "error 7 Aa", "error x Aa \"m\"", "error 7 Aa \"m", "service", "service Ss Ss", "zz", "import %", "\"", "()", "webrpc", "name = ", "version = \"v", "  name = \"n\" x", "é", "error 7 Aa \"é\" %", "name = \"日本\" x"}

// p31Far: the place is the same however much precedes it.
func p31Far(w *engine.W) *engine.Family {
	fills := []string{"", "   \t", "# c", "# 日本 \" ( # é", "struct A%d # \"", "enum E%d: int\n  # d\n  - A # c\n  - B", "service S%d\n  # d\n  - M(a: int) => (b: int)\n  @x:\"1\" @y\n  - N()", "type T%d: map<string, []int>\n\n", "error %d R%[1]d \"m \\\" é\" HTTP 400"}
	sizes := engine.Pick(w, []int{0, 1, 2, 9, 99, 256, 1000, 4096}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000, 32767, 65535, 65536})
	if w.Thorough() {
		fills = append(fills, "struct B%d\n  - a: int # c\n    + json = \"x\"\n    # d\n  - b?: string")
	}
	return &engine.Family{
		Name:  "far",
		Bound: fmt.Sprintf("%d wrong lines after up to %d repetitions of %d fillings, with 2 kinds of line ends", len(breaks), sizes[len(sizes)-1], len(fills)),
		Run: func(x *engine.X, w *engine.W) {
			fill, n := fills[x.Choose(len(fills))], sizes[x.Choose(len(sizes))]
			bad := breaks[x.Choose(len(breaks))]
			crlf, after := x.Bool(), x.Bool()
			name := fmt.Sprintf("%d times %q before %q (crlf %v, more after it %v)", n, fill, bad, crlf, after)
			if !w.Mine(func() string { return name }) {
				return
			}
			head := "webrpc = v1\n\n"
			tail := ""
			if after {
				tail = "\n\nstruct Zz\n  - a: int\n"
			}
			eol := func(s string) string {
				if crlf {
					return strings.ReplaceAll(s, "\n", "\r\n")
				}
				return s
			}
			w.Step(1)
			_, err := parseText(eol(head + bad + tail))
			if err == nil {
				w.Fail("accepted", "%q is accepted", bad)
				return
			}
			p, ok := placed(err)
			if !ok || p.line != 3 {
				w.Fail("base", "the error of line 3, %q, is %v", bad, err)
				return
			}
			var b strings.Builder
			for i := 0; i < n; i++ {
				s := fill
				if strings.Contains(s, "%") {
					s = fmt.Sprintf(s, i+1)
				}
				b.WriteString(s + "\n")
			}
			text := eol(head + b.String() + bad + tail)
			q, ok := pinned(w, text, 3+strings.Count(b.String(), "\n"), 3+strings.Count(b.String(), "\n"), true)
			if ok && (q.col != p.col || q.near != p.near || q.msg != p.msg) {
				w.Fail("moved", "%s: %+v, but alone %+v", name, q, p)
			}
		},
	}
}

// p31Wide: the column counts characters.
func p31Wide(w *engine.W) *engine.Family {
	sizes := engine.Pick(w, []int{0, 1, 2, 3, 7, 8, 9, 16, 79, 80, 127, 128, 255, 256, 1000, 65535, 65536}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 63, 64, 79, 80, 99, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 100000})
	pads := []string{" ", "\t", " \t", "a", "é", "日", "𝄞", "é", "\\\"", "#", "(", "\\\\"}
	forms := []string{"%s%%", "error 7 Aa \"%s\" %%", "name = \"%s\" %%", "error 7 Aa \"m\"%s %%", "struct Aa%s %%", "error 7 Aa \"%s"}
	return &engine.Family{
		Name:  "wide",
		Bound: fmt.Sprintf("%d forms of a wrong line with up to %d times each of %d texts before what is wrong", len(forms), sizes[len(sizes)-1], len(pads)),
		Run: func(x *engine.X, w *engine.W) {
			form, pad, n := forms[x.Choose(len(forms))], pads[x.Choose(len(pads))], sizes[x.Choose(len(sizes))]
			pre := []string{"webrpc = v1\n", "webrpc = v1\r\n# \"é\r\n"}[x.Choose(2)]
			post := []string{"", "\n", "\r\n\r\nstruct Bb\r\n"}[x.Choose(3)]
			name := fmt.Sprintf("%d times %q in %q after %q before %q", n, pad, form, pre, post)
			if !w.Mine(func() string { return name }) {
				return
			}
			l := fmt.Sprintf(form, strings.Repeat(pad, n))
			line := strings.Count(pre, "\n") + 1
			p, ok := pinned(w, pre+l+post, line, line, false)
			if ok && p.near == "%" && p.col != len([]rune(l)) {
				w.Fail("column", "%s: the error is at %d:%d, but the %% is at column %d", name, p.line, p.col, len([]rune(l)))
			}
		},
	}
}

// p31Imports: the place is one in the file that is wrong, which heads the list
// of files that import each other up to the one that was opened.
func p31Imports(w *engine.W) *engine.Family {
	n := engine.Pick(w, 5, 7)
	return &engine.Family{
		Name:  "imports",
		Bound: fmt.Sprintf("all trees of up to %d files in up to %[1]d directories, with every file broken by each of %d lines", n, len(breaks)),
		Run: func(x *engine.X, w *engine.W) {
			k := 1 + x.Choose(n)
			parent := make([]int, k)
			for i := 1; i < k; i++ {
				parent[i] = x.Choose(i)
			}
			broken, bad := x.Choose(k), breaks[x.Choose(len(breaks))]
			dirs := x.Bool()
			name := fmt.Sprintf("parents %v, file %d broken by %q (directories %v)", parent, broken, bad, dirs)
			if !w.Mine(func() string { return name }) {
				return
			}
			file := func(i int) string {
				if dirs && i > 0 {
					return strings.Repeat("d/", i%3) + fmt.Sprintf("f%d.ridl", i)
				}
				return fmt.Sprintf("f%d.ridl", i)
			}
			rel := func(from, to int) string {
				up := ""
				if dirs && from > 0 {
					up = strings.Repeat("../", from%3)
				}
				return up + file(to)
			}
			fs := memFS{}
			var alone string
			for i := 0; i < k; i++ {
				s := "webrpc = v1\n" + strings.Repeat("# c\n", i)
				for j := i + 1; j < k; j++ {
					if parent[j] == i {
						s += "import " + rel(i, j) + "\n"
					}
				}
				s += fmt.Sprintf("struct S%d\n", i) + strings.Repeat("\n", 2*i)
				if i == broken {
					s += bad
					alone = s
				}
				fs[file(i)] = s
			}
			// the text alone has no files to import
			noimp := regexp.MustCompile(`(?m)^import f.*|^import \.\..*|^import d/.*`).ReplaceAllString(alone, "#")
			w.Step(2)
			_, err := parseText(noimp)
			if err == nil {
				w.Fail("accepted", "%q is accepted", bad)
				return
			}
			p, ok := placed(err)
			_, err2 := parseFS(fs, file(0))
			if err2 == nil {
				w.Fail("import-accepted", "%s: accepted", name)
				return
			}
			q, ok2 := placed(err2)
			if !ok || !ok2 || p.line != q.line || p.col != q.col || p.near != q.near {
				w.Fail("import-place", "%s: the error is\n%v\nbut that of the file alone is\n%v", name, err2, err)
				return
			}
			w.State(fmt.Sprint(parent[:broken+1], q))
			if broken == 0 {
				return
			}
			// every file of the chain is named, from the broken one up
			at := 0
			for i := broken; ; i = parent[i] {
				j := strings.Index(err2.Error()[at:], file(i))
				if j < 0 {
					w.Fail("trail", "%s: the error doesn't name the files from %s up to %s:\n%v", name, file(broken), file(0), err2)
					return
				}
				at += j + len(file(i))
				if i == 0 {
					break
				}
			}
			for i := 1; i < k; i++ {
				on := false
				for j := broken; j > 0; j = parent[j] {
					on = on || i == j
				}
				if !on && strings.Contains(err2.Error(), "/"+fmt.Sprintf("f%d.ridl", i)) {
					w.Fail("bystander", "%s: the error names %s:\n%v", name, file(i), err2)
				}
			}
		},
	}
}

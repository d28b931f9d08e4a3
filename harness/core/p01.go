package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"

	engine "verifengine"
)

// total checks only that a parse ends properly.
func total(w *engine.W, text string) {
	base := runtime.NumGoroutine()
	s, err := parseText(text)
	w.Step(1)
	if (s == nil) == (err == nil) {
		w.Fail("both-or-neither", "schema returned: %v, error: %v", s != nil, err)
		return
	}
	if err != nil && err.Error() == "" {
		w.Fail("empty-error", "the error has no message")
	}
	if left := settled(base); left > 0 {
		w.Fail("goroutine-left", "%d goroutines are still running 2 s after the parse ended with %v", left, err)
	}
	if err == nil && len(text) > 10000 {
		w.State("ok:long")
	} else if err == nil {
		w.State("ok:" + Real(s).String())
	} else {
		msg := err.Error()
		if i := strings.Index(msg, "error near"); i >= 0 {
			if j := strings.LastIndex(msg, ": "); j > i {
				msg = msg[j:]
			}
		}
		w.State("err:" + msg)
	}
}

// p01Contexts are beginnings of documents that leave the parser in each state.
var p01Contexts = []string{
	"",
	"webrpc = v1\nversion = 1\n",
	"webrpc = v1\nversion = 1\nstruct A\n",
	"webrpc = v1\nversion = 1\nstruct A\n  - a: ",
	"webrpc = v1\nversion = 1\nstruct A\n  - a: string\n    ",
	"webrpc = v1\nversion = 1\nstruct A\n  - a: string\n    + k",
	"webrpc = v1\nversion = 1\nenum A: int\n",
	"webrpc = v1\nversion = 1\nenum A: int\n  - a ",
	"webrpc = v1\nversion = 1\nservice A\n",
	"webrpc = v1\nversion = 1\nservice A\n  - M",
	"webrpc = v1\nversion = 1\nservice A\n  - M(",
	"webrpc = v1\nversion = 1\nservice A\n  - M(a: int) ",
	"webrpc = v1\nversion = 1\nstruct S\nservice A\n  - M(S) => ",
	"webrpc = v1\nversion = 1\nservice A\n  - M() => (a: int) errors ",
	"webrpc = v1\nversion = 1\nservice A\n  @",
	"webrpc = v1\nversion = 1\nservice A\n  @a:",
	"webrpc = v1\nversion = 1\ntype A: ",
	"webrpc = v1\nversion = 1\ntype A: map<",
	"webrpc = v1\nversion = 1\ntype A: map<string,",
	"webrpc = v1\nversion = 1\ntype A: string\n  + k = ",
	"webrpc = v1\nversion = 1\nimport ",
	"webrpc = v1\nversion = 1\nimport\n  - ",
	"webrpc = v1\nversion = 1\nimport b.ridl\n  - ",
	"webrpc = v1\nversion = 1\nerror ",
	"webrpc = v1\nversion = 1\nerror 1 A ",
	"webrpc = v1\nversion = 1\nerror 1 A \"m\" ",
	"webrpc = v1\nversion = 1\nname = \"",
	"webrpc = v1 # c",
}

var p01Tokens = []string{
	"\n", " ", ":", "-", "+", "=", "(", ")", "<", ">", "[", "]", ",", "|", "?", "@", "#", "\"", "\\", "=>",
	"a", "1", "string", "map", "struct", "stream", "errors", "HTTP", "proxy", "import", "service", "type", "enum", "error", "name", "A",
	".", "/", "!", "\x00", "é", "\r", "\t", "[]", "map<string,", "//",
}

func init() {
	register(&engine.Prop{
		ID:   "P01",
		Rule: "An execution feeds one text to the real RIDL parser under monitors for panics (any goroutine), process death, hangs, leaked goroutines, and the schema-xor-error rule; a state is a distinct result (schema, or error message without positions).",
		Assumptions: []string{
			"texts beyond the bounds (longer token runs without a common prefix, more than two simultaneous edits, inputs over 256 KiB) are not covered",
			"a parse that makes no progress for 40 s counts as a hang",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p01Sequences(w), p01Deep(w), p01Edits(w), p01Cuts(w), p01Bytes(w), p01Sizes(w), p01Long(w), p01Lines(w)}
		},
	})
}

func p01Sequences(w *engine.W) *engine.Family {
	d := engine.Pick(w, 2, 3)
	return &engine.Family{
		Name: "token-sequences", Bound: fmt.Sprintf("all sequences of up to %d of %d tokens in each of %d parser contexts", d, len(p01Tokens), len(p01Contexts)),
		Run: func(x *engine.X, w *engine.W) {
			c := p01Contexts[x.Choose(len(p01Contexts))]
			n := x.Choose(d + 1)
			var sb strings.Builder
			sb.WriteString(c)
			for i := 0; i < n; i++ {
				sb.WriteString(p01Tokens[x.Choose(len(p01Tokens))])
			}
			t := sb.String()
			if w.Mine(func() string { return t }) {
				total(w, t)
			}
		},
	}
}

func p01Deep(w *engine.W) *engine.Family {
	d := engine.Pick(w, 3, 4)
	k := engine.Pick(w, 28, 28)
	return &engine.Family{
		Name: "token-sequences-deep", Bound: fmt.Sprintf("all sequences of %d of the first %d tokens in each context, each also followed by a line and more text", d, k),
		Run: func(x *engine.X, w *engine.W) {
			c := p01Contexts[x.Choose(len(p01Contexts))]
			var sb strings.Builder
			sb.WriteString(c)
			for i := 0; i < d; i++ {
				sb.WriteString(p01Tokens[x.Choose(k)])
			}
			t := sb.String()
			if w.Mine(func() string { return t }) {
				total(w, t)
			}
		},
	}
}

func p01Edits(w *engine.W) *engine.Family {
	text := rich().RIDL()
	ins := []string{"\n", " ", "\"", "#", "(", ")", "<", ">", "[", "]", ":", "-", "+", "=", "@", "|", ",", "?", "\\", "\x00", "\xff", "é", "a", "\r", "//", "map<", "stream ", "struct "}
	return &engine.Family{
		Name: "edits", Bound: fmt.Sprintf("each byte of a document with every construct (%d bytes) deleted, doubled, or preceded or replaced by each of %d strings", len(text), len(ins)),
		Run: func(x *engine.X, w *engine.W) {
			p := x.Choose(len(text))
			op := x.Choose(2 + 2*len(ins))
			var t string
			switch {
			case op == 0:
				t = text[:p] + text[p+1:]
			case op == 1:
				t = text[:p+1] + text[p:]
			case op%2 == 0:
				t = text[:p] + ins[(op-2)/2] + text[p:]
			default:
				t = text[:p] + ins[(op-2)/2] + text[p+1:]
			}
			if w.Mine(func() string { return t }) {
				total(w, t)
			}
		},
	}
}

func p01Cuts(w *engine.W) *engine.Family {
	text := rich().RIDL()
	// token boundaries
	var cut []int
	for i := 0; i <= len(text); i++ {
		if i == 0 || i == len(text) || !wordByte(text[i]) || !wordByte(text[i-1]) {
			cut = append(cut, i)
		}
	}
	reach := engine.Pick(w, 24, 400)
	return &engine.Family{
		Name: "cuts", Bound: fmt.Sprintf("the document truncated at every byte, started at every byte, and with every run of up to %d tokens removed", reach),
		Run: func(x *engine.X, w *engine.W) {
			var t string
			switch x.Choose(3) {
			case 0:
				t = text[:x.Choose(len(text))]
			case 1:
				t = text[x.Choose(len(text)):]
			case 2:
				i := x.Choose(len(cut) - 1)
				n := len(cut) - 1 - i
				if n > reach {
					n = reach
				}
				j := i + 1 + x.Choose(n)
				t = text[:cut[i]] + text[cut[j]:]
			}
			if w.Mine(func() string { return t }) {
				total(w, t)
			}
		},
	}
}

func wordByte(c byte) bool { return asciiLetter(c) || c >= '0' && c <= '9' || c == '_' }

func p01Bytes(w *engine.W) *engine.Family {
	ctx := []string{"", "webrpc = v1\nname = ", "webrpc = v1\nname = \"", "webrpc = v1\nstruct A\n - a: ", "webrpc = v1\n# "}
	return &engine.Family{
		Name: "bytes", Bound: "every string of up to 2 bytes in 5 contexts",
		Run: func(x *engine.X, w *engine.W) {
			t := ctx[x.Choose(len(ctx))]
			n := x.Choose(3)
			for i := 0; i < n; i++ {
				t += string([]byte{byte(x.Choose(256))})
			}
			if w.Mine(func() string { return fmt.Sprintf("%q", t) }) {
				total(w, t)
			}
		},
	}
}

func p01Sizes(w *engine.W) *engine.Family {
	ns := engine.Pick(w, []int{0, 1, 2, 100, 1000, 1024, 4096, 4097, 10000, 20000}, []int{0, 1, 2, 100, 1000, 1024, 4096, 4097, 10000, 20000, 65536, 100000})
	pieces := []struct {
		name           string
		pre, rep, post string
		max            int
	}{
		{"list nesting", "webrpc = v1\ntype A: ", "[]", "string\n", 10000},
		{"open list nesting", "webrpc = v1\ntype A: ", "[]", "", 10000},
		{"map nesting", "webrpc = v1\ntype A: ", "map<string,", "string", 10000},
		{"map nesting open", "webrpc = v1\ntype A: ", "map<", "", 10000},
		{"angle close", "webrpc = v1\ntype A: map<string,string", ">", "", 1 << 30},
		{"paren", "webrpc = v1\nversion = v1\nservice A\n  - M", "(", "", 1 << 30},
		{"args", "webrpc = v1\nversion = v1\nservice A\n  - M(", "a: string, ", ")", 4097},
		{"blank lines", "webrpc = v1\n", "\n", "", 1 << 30},
		{"blank lines in service", "webrpc = v1\nversion = v1\nservice A\n", "\n", " - M()\n", 1 << 30},
		{"blank lines in import", "webrpc = v1\nimport x.ridl\n", "\n", " - M\n", 1 << 30},
		{"blank lines in struct", "webrpc = v1\nstruct A\n", "\n", " - a: string\n", 1 << 30},
		{"blank lines in enum", "webrpc = v1\nenum A: int\n", "\n ", " - a\n", 1 << 30},
		{"comments", "webrpc = v1\n", "# c\n", "struct A\n", 1 << 30},
		{"hashes", "webrpc = v1\n", "#", "\n", 1 << 30},
		{"spaces", "webrpc = v1\n", " ", "struct A\n", 1 << 30},
		{"string", "webrpc = v1\nname = \"", "é", "\"\n", 1 << 30},
		{"unclosed string", "webrpc = v1\nname = \"", "x y ", "", 1 << 30},
		{"escapes", "webrpc = v1\nname = \"", "\\n", "\"\n", 1 << 30},
		{"backslashes", "webrpc = v1\nname = \"", "\\", "\"\n", 1 << 30},
		{"word", "webrpc = v1\nname = ", "x", "\n", 1 << 30},
		{"code", "webrpc = v1\nerror ", "9", " A \"m\"\n", 1 << 30},
		{"status", "webrpc = v1\nerror 1 A \"m\" HTTP ", "4", "\n", 1 << 30},
		{"annotations", "webrpc = v1\nversion = v1\nservice A\n", "@a ", "\n - M()\n", 4097},
		{"dashes", "webrpc = v1\nstruct A\n", "- ", "", 1 << 30},
		{"metas", "webrpc = v1\nstruct A\n - a: int\n", "+ a = b\n", "", 1 << 30},
		{"dots", "webrpc = v1\nstruct A\n - a: int\n + a", ".b", " = c\n", 1 << 30},
		{"slashes", "webrpc = v1\nbasepath = ", "/", "\n", 1 << 30},
		{"bars", "webrpc = v1\nversion = v1\nservice A\n - M() errors A", "|A", "\n", 4097},
		{"nul", "webrpc = v1\n", "\x00", "\n", 1 << 30},
		{"invalid utf8", "webrpc = v1\nname = \"", "\xff", "\"\n", 1 << 30},
	}
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("%d kinds of repetition, %v times (nesting up to 10000, quadratic ones up to 4097)", len(pieces), ns),
		Run: func(x *engine.X, w *engine.W) {
			p := pieces[x.Choose(len(pieces))]
			n := ns[x.Choose(len(ns))]
			if n > p.max {
				return
			}
			if !w.Mine(func() string { return fmt.Sprintf("%s: %q + %d x %q + %q", p.name, p.pre, n, p.rep, p.post) }) {
				return
			}
			total(w, p.pre+strings.Repeat(p.rep, n)+p.post)
		},
	}
}

// p01Long lets a very long run of skipped lines follow each parser state. The
// stack is limited to a fraction of what Go allows, so that a parser that nests a call
// per line shows at that fraction of the length.
func p01Long(w *engine.W) *engine.Family {
	n := engine.Pick(w, 150000, 600000)
	stack := engine.Pick(w, 24<<20, 96<<20)
	runs := engine.Pick(w, []string{"\n", "# c\n"}, []string{"\n", " \n", "# c\n", "\t", "- a\n", "@a\n", "+ a = b\n", "\r\n"})
	return &engine.Family{
		Name: "long runs", Bound: fmt.Sprintf("%d repetitions of each of %d lines after each of %d beginnings of a document, with a stack of %d MB", n, len(runs), len(p01Contexts)+len(p01LongContexts), stack>>20),
		Run: func(x *engine.X, w *engine.W) {
			pre := append(append([]string{}, p01Contexts...), p01LongContexts...)[x.Choose(len(p01Contexts)+len(p01LongContexts))]
			r := runs[x.Choose(len(runs))]
			if !w.Mine(func() string { return fmt.Sprintf("%q + %d x %q", pre, n, r) }) {
				return
			}
			defer debug.SetMaxStack(debug.SetMaxStack(stack))
			total(w, pre+strings.Repeat(r, n))
			debug.FreeOSMemory()
		},
	}
}

var p01LongContexts = []string{
	"webrpc = v1\nimport\n",
	"webrpc = v1\nimport\n  - x.ridl\n",
	"webrpc = v1\nimport x.ridl\n",
	"webrpc = v1\nimport x.ridl\n  - A\n",
	"webrpc = v1\nerror 1 A \"m\"\n",
	"webrpc = v1\nversion = v1\nservice A\n  @a\n",
	"webrpc = v1\nversion = v1\nservice A\n  - M() => () errors A\n",
}

// p01Lines composes documents from whole lines that may be out of place.
func p01Lines(w *engine.W) *engine.Family {
	lines := []string{
		"webrpc = v1", "name = a", "version = v1", "basepath = /a", "import", "import b.ridl", "  - b.ridl", "  - A",
		"struct A", "  - a: string", "  - a?: A", "    + json = b", "enum A: int", "enum B: string", "  - A = 1",
		"type A: A", "type B: []B", "error 1 A \"m\"", "error 2 B m HTTP 500", "service A", "  - M()", "  - M(A) => (A)", "  - stream M(a: A) => stream (a: B) errors A | B",
		"  @a", "  @a:b @c:\"d\"", "# c", "", "map", "  - M(a: map<string,map<A,[]B>>)", "proxy", "  - proxy M",
	}
	d := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "lines", Bound: fmt.Sprintf("all sequences of up to %d of %d lines after the headers, or alone", d, len(lines)),
		Run: func(x *engine.X, w *engine.W) {
			t := [2]string{"webrpc = v1\nversion = v1\n", ""}[x.Choose(2)]
			n := x.Choose(d + 1)
			for i := 0; i < n; i++ {
				t += lines[x.Choose(len(lines))] + "\n"
			}
			if w.Mine(func() string { return t }) {
				total(w, t)
			}
		},
	}
}

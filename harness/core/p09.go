package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"

	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P09",
		Rule: "An execution parses one import graph on a file system with a fault at one operation, or with bad or missing files at some places of the graph, judges the error (cause, and chain of files up to the root) or the schema, and parses again without the fault; a state is a distinct error text or schema.",
		Assumptions: []string{
			"a fault in Stat or Close, or one that a later attempt no longer meets, may also be survived with the complete schema",
			"the chain is read off the error text as the files named with the parser's root directory",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p09Faults(w), p09Bad(w), p09Missing(w), p09Outside(), p09Short(w), p09Reuse(), p09Deep(w), p09Lines(w), p09Causes(w)}
		},
	})
}

type faultKind int

const (
	fOpen faultKind = iota
	fStat
	fRead
	fClose
)

// faultFS counts the operations on it and fails the k-th.
type faultFS struct {
	files   memFS
	at      int  // operation to fail; -1: none
	stay    bool // the fault stays on that file
	partial int  // 0: read fails with no data, 1: together with data, 2: unexpected EOF
	chunk   int
	statAdd int // what Stat adds to the size, 1<<30 meaning: size 0
	n       int
	hit     string // file of the fault
	kind    faultKind
	open    int
}

var errInjected = errors.New("injected fault of the disk")

func (f *faultFS) op(name string, k faultKind) error {
	n := f.n
	f.n++
	if n == f.at {
		f.hit, f.kind = name, k
	} else if !(f.stay && f.hit == name) {
		return nil
	}
	return &fs.PathError{Op: "op", Path: name, Err: errInjected}
}

func (f *faultFS) Open(name string) (fs.File, error) {
	if err := f.op(name, fOpen); err != nil {
		return nil, err
	}
	file, err := f.files.Open(name)
	if err != nil {
		return nil, err
	}
	f.open++
	return &faultFile{f: f, name: name, m: file.(*memFile)}, nil
}

type faultFile struct {
	f      *faultFS
	name   string
	m      *memFile
	closed bool
}

func (f *faultFile) Stat() (fs.FileInfo, error) {
	if err := f.f.op(f.name, fStat); err != nil {
		return nil, err
	}
	i := memInfo{path.Base(f.name), f.m.n + int64(f.f.statAdd)}
	if f.f.statAdd == 1<<30 {
		i.n = 0
	}
	return i, nil
}

func (f *faultFile) Read(p []byte) (int, error) {
	err := f.f.op(f.name, fRead)
	if err != nil && f.f.partial == 0 {
		return 0, err
	}
	if c := f.f.chunk; c > 0 && len(p) > c {
		p = p[:c]
	}
	if err != nil && f.f.partial == 2 {
		return 0, io.ErrUnexpectedEOF
	}
	n, rerr := f.m.Read(p)
	if err != nil {
		return n, err
	}
	return n, rerr
}

func (f *faultFile) Close() error {
	if !f.closed {
		f.closed = true
		f.f.open--
	}
	return f.f.op(f.name, fClose)
}

const p09Root = "/srv/schemas"

func parseRoot(f fs.FS, root string) (*schema.WebRPCSchema, error) {
	return ridl.NewParser(f, p09Root, root).Parse()
}

// chains are all simple import paths from root to a file, failing file first.
func chains(imports map[string][]string, root, to string) [][]string {
	var out [][]string
	var walk func(p []string)
	walk = func(p []string) {
		at := p[len(p)-1]
		if at == to {
			var rev []string
			for i := len(p) - 1; i >= 0; i-- {
				rev = append(rev, p[i])
			}
			out = append(out, rev)
			return
		}
		for _, n := range imports[at] {
			seen := false
			for _, q := range p {
				seen = seen || q == n
			}
			if !seen {
				walk(append(append([]string{}, p...), n))
			}
		}
	}
	walk([]string{root})
	return out
}

// judgeTrail checks the error of a failing file.
func judgeTrail(w *engine.W, err error, imports map[string][]string, root, failing string, cause ...string) {
	msg := err.Error()
	w.State(msg)
	found := len(cause) == 0
	for _, c := range cause {
		found = found || strings.Contains(msg, c)
	}
	if !found {
		w.Fail("cause", "the error for %s says nothing of the cause %q:\n%s", failing, cause, msg)
		return
	}
	if failing == root {
		return
	}
	// the mentions of files, in order
	var got []string
	rest := msg
	for {
		i := strings.Index(rest, p09Root+"/")
		if i < 0 {
			break
		}
		rest = rest[i+len(p09Root)+1:]
		j := strings.Index(rest, ".ridl")
		if j < 0 {
			break
		}
		got = append(got, rest[:j]+".ridl")
	}
	all := chains(imports, root, failing)
	for _, c := range all {
		if strings.Join(c, " ") == strings.Join(got, " ") {
			return
		}
	}
	w.Fail("trail", "the error for %s names the files %v, expected one of %v:\n%s", failing, got, all, msg)
}

// dag decodes an import graph of n files where files import later ones only.
func dag(n, mask int) [][]int {
	g := make([][]int, n)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if mask&1 == 1 {
				g[i] = append(g[i], j)
			}
			mask >>= 1
		}
	}
	return g
}

func dagFiles(g [][]int) (Files, map[string][]string) {
	f := Files{}
	im := map[string][]string{}
	for i := range g {
		f[fileName(i)] = graphFile(i, g[i])
		for _, j := range g[i] {
			im[fileName(i)] = append(im[fileName(i)], fileName(j))
		}
	}
	return f, im
}

func fullOrFail(w *engine.W, f fs.FS, files Files, what string) {
	s, err := parseRoot(f, "a.ridl")
	w.Step(1)
	if err != nil || s == nil {
		w.Fail("recovery", "%s: %v", what, err)
		return
	}
	want, _, _ := files.Expect("a.ridl")
	if got, exp := Real(s).String(), want.String(); got != exp {
		w.Fail("incomplete", "%s: the schema is not the full one:\n%s", what, diff(exp, got))
	}
}

func p09Faults(w *engine.W) *engine.Family {
	n := engine.Pick(w, 4, 5)
	chunk := engine.Pick(w, 200, 100)
	maxOps := engine.Pick(w, 45, 90)
	return &engine.Family{
		Name: "faults", Bound: fmt.Sprintf("all %d acyclic graphs of %d files, a fault at each of the first %d operations on the file system (open, stat, every read of %d bytes, close), once or lasting, reads failing with or without data", 1<<(n*(n-1)/2), n, maxOps, chunk),
		Run: func(x *engine.X, w *engine.W) {
			g := dag(n, x.Choose(1<<(n*(n-1)/2)))
			at := x.Choose(maxOps)
			stay := x.Bool()
			partial := x.Choose(3)
			if !w.Mine(func() string {
				f, _ := dagFiles(g)
				return fmt.Sprintf("fault at operation %d, lasting: %v, partial: %d\n%s", at, stay, partial, f)
			}) {
				return
			}
			files, im := dagFiles(g)
			ff := &faultFS{files: files.fs(), at: at, stay: stay, partial: partial, chunk: chunk}
			s, err := parseRoot(ff, "a.ridl")
			w.Step(1)
			if (s == nil) == (err == nil) {
				w.Fail("both-or-neither", "schema %v together with error %v", s != nil, err)
				return
			}
			if err == nil {
				if ff.hit != "" && (stay || ff.n == at+1) && (ff.kind == fOpen || ff.kind == fRead) {
					w.Fail("fault-ignored", "%s could not be read, but parsing succeeded", ff.hit)
					return
				}
				fullOrFail(w, &faultFS{files: files.fs(), at: at, stay: stay, partial: partial, chunk: chunk}, files, "with a fault that was survived")
			} else {
				if ff.hit == "" {
					w.Fail("no-fault", "parsing failed without a fault: %v", err)
					return
				}
				judgeTrail(w, err, im, "a.ridl", ff.hit, errInjected.Error(), io.ErrUnexpectedEOF.Error())
				ff.at, ff.hit = -1, ""
				fullOrFail(w, ff, files, "after the fault has gone")
			}
		},
	}
}

// p09Contents are what may be wrong with a file, and what the error must mention
// (any of the texts).
var p09Contents = []struct {
	name  string
	edit  func(text string) string
	cause []string
}{
	{"syntax", func(t string) string { return t + "\nstruct )\n" }, []string{"unexpected", "near", ")"}},
	{"syntax-first", func(t string) string { return "= " + t }, nil},
	{"unclosed", func(t string) string { return t + "\nerror 90 Er \"open\n" }, nil},
	{"type", func(t string) string { return t + "\nstruct Bad\n  - a: Nope\n" }, []string{"Nope"}},
	{"alias", func(t string) string { return t + "\ntype Bad: []Nope\n" }, []string{"Nope"}},
	{"argument", func(t string) string { return t + "\nservice Bad\n  - M(a: Nope)\n" }, []string{"Nope"}},
	{"error-name", func(t string) string { return t + "\nerror 91 lower \"m\"\n" }, []string{"lower"}},
	{"error-ref", func(t string) string { return t + "\nservice Bad\n  - M() errors Nope\n" }, []string{"Nope"}},
	{"type-name", func(t string) string { return t + "\nstruct lower\n" }, []string{"lower"}},
	{"duplicate", func(t string) string { return t + "\nstruct Twice\nenum Twice: int\n  - A\n" }, []string{"Twice"}},
	{"headers", func(t string) string { return strings.Replace(t, "webrpc = v1", "webrpc = v7", 1) }, []string{"v7", "version"}},
	{"no-headers", func(t string) string { return strings.Replace(t, "webrpc = v1", "", 1) }, []string{"version"}},
	{"twice", func(t string) string { return t + "\nversion = v9\n" }, []string{"version"}},
	{"basepath", func(t string) string { return t + "\nbasepath = \"/a?b\"\n" }, []string{"basepath"}},
	{"empty", func(string) string { return "" }, []string{"version"}},
	{"import", func(t string) string { return "import \"missing.ridl\"\n" + t }, []string{"missing.ridl"}},
	{"nul", func(t string) string { return t + "\x00" }, nil},
}

func p09Bad(w *engine.W) *engine.Family {
	n := engine.Pick(w, 4, 5)
	return &engine.Family{
		Name: "bad-files", Bound: fmt.Sprintf("all acyclic graphs of %d files with each of %d defects in each file", n, len(p09Contents)),
		Run: func(x *engine.X, w *engine.W) {
			g := dag(n, x.Choose(1<<(n*(n-1)/2)))
			c := p09Contents[x.Choose(len(p09Contents))]
			at := x.Choose(n)
			if !w.Mine(func() string { f, _ := dagFiles(g); return fmt.Sprintf("%s in %s\n%s", c.name, fileName(at), f) }) {
				return
			}
			files, im := dagFiles(g)
			m := files.fs()
			bad := fileName(at)
			good := m[bad]
			m[bad] = c.edit(good)
			reached := len(chains(im, "a.ridl", bad)) > 0
			s, err := parseRoot(m, "a.ridl")
			w.Step(1)
			if !reached {
				fullOrFail(w, m, files, "with a bad file that is not imported")
				return
			}
			if err == nil || s != nil {
				w.Fail("accepted", "%s in %s was accepted (schema %v, error %v)", c.name, bad, s != nil, err)
				return
			}
			failing := bad
			if c.name == "import" {
				failing = "missing.ridl"
				im[bad] = append(im[bad], failing)
			}
			judgeTrail(w, err, im, "a.ridl", failing, c.cause...)
			m[bad] = good
			fullOrFail(w, m, files, "after the file was repaired")
		},
	}
}

func p09Missing(w *engine.W) *engine.Family {
	n := engine.Pick(w, 4, 5)
	return &engine.Family{
		Name: "missing-files", Bound: fmt.Sprintf("all acyclic graphs of %d files with each non-empty set of files missing or broken", n),
		Run: func(x *engine.X, w *engine.W) {
			g := dag(n, x.Choose(1<<(n*(n-1)/2)))
			set := 1 + x.Choose(1<<n-1)
			broken := x.Bool()
			if !w.Mine(func() string { f, _ := dagFiles(g); return fmt.Sprintf("missing %b\n%s", set, f) }) {
				return
			}
			files, im := dagFiles(g)
			m := files.fs()
			var bad []string
			for i := 0; i < n; i++ {
				if set>>i&1 == 1 && len(chains(im, "a.ridl", fileName(i))) > 0 {
					bad = append(bad, fileName(i))
				}
				if set>>i&1 == 1 {
					if broken {
						m[fileName(i)] += "\nstruct Bad" + fmt.Sprint(i) + "\n  - a: Nope" + fmt.Sprint(i) + "\n"
					} else {
						delete(m, fileName(i))
					}
				}
			}
			s, err := parseRoot(m, "a.ridl")
			w.Step(1)
			if len(bad) == 0 {
				fullOrFail(w, m, files, "with files missing that are not imported")
				return
			}
			if err == nil || s != nil {
				w.Fail("accepted", "accepted although %v are bad", bad)
				return
			}
			w.State(err.Error())
			// the error must be that of one of the bad files
			for _, b := range bad {
				cause := b
				if broken {
					cause = "Nope" + fmt.Sprint(int(b[0]-'a'))
				}
				if strings.Contains(err.Error(), cause) && (b == "a.ridl" || trailOK(err.Error(), im, b)) {
					return
				}
			}
			w.Fail("trail", "the error is of none of the bad files %v:\n%v", bad, err)
		},
	}
}

func trailOK(msg string, im map[string][]string, failing string) bool {
	for _, c := range chains(im, "a.ridl", failing) {
		rest, ok := msg, true
		for _, f := range c {
			i := strings.Index(rest, p09Root+"/"+f)
			if i < 0 {
				ok = false
				break
			}
			rest = rest[i+1:]
		}
		if ok {
			return true
		}
	}
	return false
}

// p09Lines: every way to write the imports on the way to a bad file.
func p09Lines(w *engine.W) *engine.Family {
	forms := []struct {
		name string
		imp  func(path string, members []string) []any
	}{
		{"word", func(p string, m []string) []any { return []any{&Imp{Path: W(p), Members: m}} }},
		{"quoted", func(p string, m []string) []any { return []any{&Imp{Path: Q(p), Members: m}} }},
		{"dotted", func(p string, m []string) []any { return []any{&Imp{Path: Q("./" + p), Members: m}} }},
		{"list", func(p string, m []string) []any { return []any{&Imp{Path: W(p), InList: true}} }},
		{"first in list", func(p string, m []string) []any {
			return []any{&Imp{Path: W(p), InList: true}, &Imp{Path: W("d.ridl"), InList: true}}
		}},
		{"last in list", func(p string, m []string) []any {
			return []any{&Imp{Path: W("d.ridl"), InList: true}, &Imp{Path: Q(p), InList: true}}
		}},
		{"after another", func(p string, m []string) []any {
			return []any{&Imp{Path: W("d.ridl"), Members: []string{"Dd"}}, &Imp{Path: W(p), Members: m}}
		}},
		{"before another", func(p string, m []string) []any {
			return []any{&Imp{Path: W(p), Members: m}, &Imp{Path: W("d.ridl"), Members: []string{"Dd"}}}
		}},
		{"twice", func(p string, m []string) []any {
			return []any{&Imp{Path: W(p), Members: m}, &Imp{Path: W(p), Members: m}}
		}},
	}
	members := func(own string) [][]string {
		return [][]string{nil, {own}, {"Nothing"}, {own, "Nothing"}, {"Nothing", own, "Other"}}
	}
	kinds := []string{"missing", "syntax", "type", "read", "cycle", "directory", "empty"}
	return &engine.Family{
		Name: "lines", Bound: fmt.Sprintf("a chain of three files with each of %d ways to write each import, with 5 lists of members, before, between or after the definitions; %d defects of the last two files", len(forms), len(kinds)),
		Run: func(x *engine.X, w *engine.W) {
			f1, m1 := x.Choose(len(forms)), x.Choose(5)
			f2, m2 := x.Choose(len(forms)), x.Choose(5)
			if !w.Thorough() && f1 != 0 && f2 != 0 && (m1 != 0 || m2 != 0) {
				return
			}
			place := x.Choose(3)
			kind := kinds[x.Choose(len(kinds))]
			bad := []string{"b.ridl", "c.ridl"}[x.Choose(2)]
			if !w.Mine(func() string {
				return fmt.Sprintf("%s %v, %s %v, place %d, %s %s", forms[f1].name, m1, forms[f2].name, m2, place, bad, kind)
			}) {
				return
			}
			doc := func(imps []any, own string) *Doc {
				var items []any
				switch place {
				case 0:
					items = append(append(items, imps...), &Head{Key: "webrpc", Val: W("v1")}, &Struct{Name: own})
				case 1:
					items = append(append(items, &Head{Key: "webrpc", Val: W("v1")}), append(imps, &Struct{Name: own})...)
				case 2:
					items = append(append(items, &Head{Key: "webrpc", Val: W("v1")}, &Struct{Name: own}), imps...)
				}
				return (&Doc{}).Add(items...)
			}
			files := Files{
				"a.ridl": doc(forms[f1].imp("b.ridl", members("Bb")[m1]), "Aa"),
				"b.ridl": doc(forms[f2].imp("c.ridl", members("Cc")[m2]), "Bb"),
				"c.ridl": doc(nil, "Cc"),
				"d.ridl": doc(nil, "Dd"),
			}
			im := map[string][]string{"a.ridl": {"b.ridl", "d.ridl"}, "b.ridl": {"c.ridl", "d.ridl"}}
			m := files.fs()
			good := m[bad]
			ff := &faultFS{files: m, at: -1}
			failing := bad
			var cause []string
			switch kind {
			case "missing":
				delete(m, bad)
				cause = []string{bad}
			case "syntax":
				m[bad] += "\nstruct )\n"
				cause = []string{"unexpected", "near", ")"}
			case "type":
				m[bad] += "\nstruct Bad\n  - a: Nope\n"
				cause = []string{"Nope"}
			case "read":
				ff.hit, ff.stay = bad, true
				cause = []string{errInjected.Error()}
			case "cycle":
				m[bad] += "\nimport a.ridl\n"
				cause = []string{"circular", "cycle", "a.ridl"}
				failing = ""
			case "directory":
				delete(m, bad)
				m[bad+"/x"] = "x"
				cause = nil
			case "empty":
				m[bad] = ""
				cause = []string{"version"}
			}
			s, err := parseRoot(ff, "a.ridl")
			w.Step(1)
			if err == nil || s != nil {
				w.Fail("accepted", "%s in %s was accepted (schema %v, error %v)", kind, bad, s != nil, err)
				return
			}
			if failing != "" {
				judgeTrail(w, err, im, "a.ridl", failing, cause...)
			}
			delete(m, bad+"/x")
			m[bad] = good
			ff.hit, ff.stay = "", false
			fullOrFail(w, ff, files, "after the file was repaired")
		},
	}
}

func p09Outside() *engine.Family {
	paths := []string{"../b.ridl", "../../b.ridl", "x/../../b.ridl", "..", "../", ".", "x/..", "x", "b.ridl/..", "b.ridl/.", "b.ridl/", "b.ridl/c.ridl", "/", "nope.ridl", "B.ridl", "b.RIDL", "b", " b.ridl", "b.ridl ", "./nope/../../b.ridl", "b\\x.ridl"}
	return &engine.Family{
		Name: "outside", Bound: fmt.Sprintf("%d import paths naming no file, or one outside the file system, at each place of a chain of three files", len(paths)),
		Run: func(x *engine.X, w *engine.W) {
			p := paths[x.Choose(len(paths))]
			at := x.Choose(3)
			text := func() (memFS, string) {
				f, _ := dagFiles([][]int{{1}, {2}, {}})
				m := f.fs()
				m[fileName(at)] = "import \"" + p + "\"\n" + m[fileName(at)]
				return m, p
			}
			if !w.Mine(func() string { m, _ := text(); return fmt.Sprintf("%q", m) }) {
				return
			}
			m, _ := text()
			s, err := parseRoot(m, "a.ridl")
			w.Step(1)
			if path.Clean(p) == "b.ridl" { // b.ridl/. and b.ridl/ are b.ridl
				w.State(p)
				return
			}
			if err == nil || s != nil {
				w.Fail("accepted", "import of %q was accepted", p)
				return
			}
			w.State(err.Error())
		},
	}
}

// p09Short reads through file systems that are slow or misstate sizes, which is
// no fault.
func p09Short(w *engine.W) *engine.Family {
	chunks := []int{1, 2, 3, 5, 7, 16, 511, 512, 513, 4096, 0}
	adds := []int{0, -1, 1, 100, -100, 1 << 30}
	return &engine.Family{
		Name: "short-reads", Bound: "all graphs of 3 files read in pieces of 11 sizes with 6 statements of the size",
		Run: func(x *engine.X, w *engine.W) {
			g := dag(3, x.Choose(8))
			c, a := chunks[x.Choose(len(chunks))], adds[x.Choose(len(adds))]
			pad := []int{0, 3000}[x.Choose(2)]
			if !w.Mine(func() string { f, _ := dagFiles(g); return fmt.Sprintf("reads of %d, size off by %d\n%s", c, a, f) }) {
				return
			}
			files, _ := dagFiles(g)
			m := files.fs()
			for n := range m {
				m[n] = strings.Repeat("# padding\n", pad/10) + "\n" + m[n]
			}
			w.State(fmt.Sprint(g, c, a, pad))
			fullOrFail(w, &faultFS{files: m, at: -1, chunk: c, statAdd: a}, files, "without a fault")
		},
	}
}

// p09Reuse parses again with the same parser.
func p09Reuse() *engine.Family {
	return &engine.Family{
		Name: "same-parser", Bound: "all graphs of 3 files; a parser parses up to three times while each file is well, broken, missing or in a cycle",
		Run: func(x *engine.X, w *engine.W) {
			g := dag(3, x.Choose(8))
			var st [3][2]int
			for i := range st {
				st[i][0], st[i][1] = x.Choose(4), x.Choose(3)
			}
			if !w.Mine(func() string { f, _ := dagFiles(g); return fmt.Sprintf("states (kind, file) %v\n%s", st, f) }) {
				return
			}
			files, im := dagFiles(g)
			m := files.fs()
			p := ridl.NewParser(m, p09Root, "a.ridl")
			for _, t := range append(st[:], [2]int{}) {
				for n, text := range files.fs() {
					m[n] = text
				}
				name := fileName(t[1])
				reached := len(chains(im, "a.ridl", name)) > 0
				switch t[0] {
				case 1:
					m[name] += "\nstruct Bad\n  - a: Nope\n"
				case 2:
					delete(m, name)
				case 3:
					m[name] = "import \"a.ridl\"\n" + m[name]
				}
				s, err := p.Parse()
				w.Step(1)
				if (s == nil) == (err == nil) {
					w.Fail("both-or-neither", "schema %v together with error %v", s != nil, err)
					return
				}
				if bad := t[0] != 0 && reached; bad != (err != nil) {
					w.Fail("reuse", "state %v of %v: error %v", t, st, err)
					return
				}
				if err != nil {
					w.State(err.Error())
					continue
				}
				want, _, _ := files.Expect("a.ridl")
				w.State(want.String())
				if got, exp := Real(s).String(), want.String(); got != exp {
					w.Fail("incomplete", "state %v of %v: the schema is not the full one:\n%s", t, st, diff(exp, got))
					return
				}
			}
		},
	}
}

// p09Deep has the failing file at the end of a long chain, in directories.
func p09Deep(w *engine.W) *engine.Family {
	max := engine.Pick(w, 40, 150)
	return &engine.Family{
		Name: "deep", Bound: fmt.Sprintf("chains of 2..%d files in nested or changing directories, the last missing, broken or unreadable", max),
		Run: func(x *engine.X, w *engine.W) {
			n := 2 + x.Choose(max-1)
			kind := x.Choose(3)
			dirs := x.Choose(3)
			if !w.Mine(func() string { return fmt.Sprintf("chain of %d, kind %d, directories %d", n, kind, dirs) }) {
				return
			}
			name := func(i int) string {
				switch dirs {
				case 1:
					return strings.Repeat("d/", i) + fmt.Sprintf("f%d.ridl", i)
				case 2:
					return fmt.Sprintf("d%d/f%d.ridl", i%3, i)
				}
				return fmt.Sprintf("f%d.ridl", i)
			}
			m := memFS{}
			im := map[string][]string{}
			for i := 0; i < n; i++ {
				text := "webrpc = v1\n"
				if i+1 < n {
					rel := name(i + 1)
					if d := path.Dir(name(i)); d != "." {
						rel = relPath(d, name(i+1))
					}
					text += "import \"" + rel + "\"\n"
					im[name(i)] = []string{name(i + 1)}
				}
				m[name(i)] = text + fmt.Sprintf("struct S%d\n", i)
			}
			last := name(n - 1)
			var f fs.FS = m
			cause := errInjected.Error()
			switch kind {
			case 0:
				delete(m, last)
				cause = fs.ErrNotExist.Error()
			case 1:
				m[last] += "struct Bad\n  - a: Nope\n"
				cause = "Nope"
			case 2:
				f = &lastFault{m, last}
			}
			s, err := parseRoot(f, name(0))
			w.Step(1)
			if err == nil || s != nil {
				w.Fail("accepted", "accepted")
				return
			}
			judgeTrail(w, err, im, name(0), last, cause)
		},
	}
}

type lastFault struct {
	memFS
	name string
}

func (l *lastFault) Open(n string) (fs.File, error) {
	if n == l.name {
		return nil, &fs.PathError{Op: "open", Path: n, Err: errInjected}
	}
	return l.memFS.Open(n)
}

// p09Errs are errors a file system may give: some are compared with by name in
// real code, some are temporary or time-outs.
var p09Errs = []error{
	errInjected, fs.ErrPermission, fs.ErrNotExist, fs.ErrExist, fs.ErrClosed, fs.ErrInvalid,
	io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, io.ErrShortBuffer,
	os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded,
	syscall.EINTR, syscall.EAGAIN, syscall.EIO, syscall.EMFILE, syscall.EISDIR, syscall.ENOTDIR, syscall.ELOOP, syscall.ENAMETOOLONG, syscall.ESTALE,
	errors.New(""), errors.New("stack trace:\n  - x"), errors.New("import error"), errors.New("100%s %v\n%d"),
}

func p09Causes(w *engine.W) *engine.Family {
	n := engine.Pick(w, 4, 5)
	return &engine.Family{
		Name: "errors", Bound: fmt.Sprintf("all acyclic graphs of %d files, each file failing to open or to read with each of %d errors, as it is or wrapped in two ways, and lasting or gone the second time", n, len(p09Errs)),
		Run: func(x *engine.X, w *engine.W) {
			g := dag(n, x.Choose(1<<(n*(n-1)/2)))
			at := x.Choose(n)
			cause := p09Errs[x.Choose(len(p09Errs))]
			wrap := x.Choose(3)
			read := x.Bool()
			err := cause
			switch wrap {
			case 1:
				err = &fs.PathError{Op: "open", Path: fileName(at), Err: cause}
			case 2:
				err = fmt.Errorf("%w, and %w", &fs.PathError{Op: "read", Path: "x", Err: errInjected}, cause)
			}
			if !w.Mine(func() string {
				f, _ := dagFiles(g)
				return fmt.Sprintf("%s fails (read %v) with %q\n%s", fileName(at), read, err, f)
			}) {
				return
			}
			files, im := dagFiles(g)
			f := &causeFS{memFS: files.fs(), name: fileName(at), read: read, err: err}
			s, got := parseRoot(f, "a.ridl")
			w.Step(1)
			if len(chains(im, "a.ridl", f.name)) == 0 {
				if got != nil || s == nil {
					w.Fail("not-imported", "an unreadable file that is not imported: %v", got)
				}
				return
			}
			if got == nil || s != nil {
				w.Fail("accepted", "schema %v and error %v", s != nil, got)
				return
			}
			judgeTrail(w, got, im, "a.ridl", f.name, cause.Error())
			f.name = ""
			fullOrFail(w, f, files, "after the fault has gone")
		},
	}
}

// causeFS fails to open or read one file.
type causeFS struct {
	memFS
	name string
	read bool
	err  error
}

func (c *causeFS) Open(n string) (fs.File, error) {
	if n != c.name {
		return c.memFS.Open(n)
	}
	if !c.read {
		return nil, c.err
	}
	f, err := c.memFS.Open(n)
	return &causeFile{f, c.err}, err
}

type causeFile struct {
	fs.File
	err error
}

func (c *causeFile) Read([]byte) (int, error) { return 0, c.err }

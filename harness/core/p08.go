package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P08",
		Rule: "An execution parses one set of files (an import graph) and compares the root's whole schema with the reference merge, or expects an error naming a cycle when a cycle is reachable; a state is a distinct expected schema or rejection.",
		Assumptions: []string{
			"a member list that names a definition the file does not have admits nothing for that name",
			"with a member list, the admitted definitions must be resolvable among themselves and the importing file's",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p08Three(), p08Four(w), p08Five(w), p08Six(w), p08Members(w), p08Twice(), p08Many(w), p08Long(w), p08Wide(w), p08Same(), p08Near(w), p08Alike(w), p08Paths(), p08Place(), p08Chain(w), p08Layout(w), p08Headers(), p08Fan(w)}
		},
	})
}

// Files is a set of documents by path.
type Files map[string]*Doc

func (f Files) fs() memFS {
	m := memFS{}
	for n, d := range f {
		m[n] = d.RIDL()
	}
	return m
}

func (f Files) String() string {
	var names []string
	for n := range f {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "=== %s\n%s", n, f[n].RIDL())
	}
	return b.String()
}

type refFile struct {
	all imported // everything visible: imported first, then its own
	s   *Sch
	ok  bool
}

// Expect is the reference for a set of files: the root's schema, or false; cycle
// tells that a cycle is reachable from the root.
func (f Files) Expect(root string) (s *Sch, ok, cycle bool) {
	done := map[string]*refFile{}
	active := map[string]bool{}
	var visit func(p string) *refFile
	visit = func(p string) *refFile {
		if r := done[p]; r != nil {
			return r
		}
		if active[p] {
			cycle = true
			return &refFile{}
		}
		active[p] = true
		defer delete(active, p)
		r := &refFile{ok: true}
		d := f[p]
		if d == nil {
			r.ok = false
			done[p] = r
			return r
		}
		seen := map[any]bool{}
		for _, it := range d.Items {
			im, is := it.(*Imp)
			if !is {
				continue
			}
			sub := visit(path.Join(path.Dir(p), im.Path.V))
			r.ok = r.ok && sub.ok
			allowed := func(n string) bool {
				for _, m := range im.Members {
					if m == n {
						return true
					}
				}
				return len(im.Members) == 0
			}
			for _, t := range sub.all.Types {
				if !seen[t] && allowed(typeName(t)) {
					seen[t] = true
					r.all.Types = append(r.all.Types, t)
				}
			}
			for _, e := range sub.all.Errs {
				if !seen[e] && allowed(e.Name) {
					seen[e] = true
					r.all.Errs = append(r.all.Errs, e)
				}
			}
			for _, v := range sub.all.Svcs {
				if !seen[v] && allowed(v.Name) {
					seen[v] = true
					r.all.Svcs = append(r.all.Svcs, v)
				}
			}
		}
		in := imported{Types: r.all.Types[:len(r.all.Types):len(r.all.Types)], Errs: r.all.Errs[:len(r.all.Errs):len(r.all.Errs)], Svcs: r.all.Svcs[:len(r.all.Svcs):len(r.all.Svcs)]}
		own, good := d.Expect(&in)
		r.s, r.ok = own, r.ok && good
		for _, kind := range []int{0, 1, 2} {
			for _, it := range d.Items {
				switch v := it.(type) {
				case *Alias:
					if kind == 0 {
						r.all.Types = append(r.all.Types, v)
					}
				case *Enum:
					if kind == 1 {
						r.all.Types = append(r.all.Types, v)
					}
				case *Struct:
					if kind == 2 {
						r.all.Types = append(r.all.Types, v)
					}
				case *Err:
					if kind == 2 {
						r.all.Errs = append(r.all.Errs, v)
					}
				case *Svc:
					if kind == 2 {
						r.all.Svcs = append(r.all.Svcs, v)
					}
				}
			}
		}
		done[p] = r
		return r
	}
	r := visit(root)
	return r.s, r.ok && !cycle, cycle
}

// runFiles checks one set of files.
func runFiles(w *engine.W, bare func() (Files, string)) {
	build := bare
	if renames() {
		return // names are known across files
	}
	if ambience > 0 {
		build = func() (Files, string) {
			f, root := bare()
			for i, n := range f.names() {
				ambientFile = i
				f[n] = around(f[n])
			}
			ambientFile = 0
			return f, root
		}
	}
	if !w.Mine(func() string { f, root := build(); return "root " + root + "\n" + f.String() }) {
		return
	}
	f, root := build()
	checkFiles(w, f, root)
}

func checkFiles(w *engine.W, f Files, root string) {
	want, ok, cycle := f.Expect(root)
	s, err := parseFS(f.fs(), root)
	judge(w, s, err, want, ok)
	if cycle && err != nil {
		if m := strings.ToLower(err.Error()); !strings.Contains(m, "circular") && !strings.Contains(m, "cycl") {
			w.Fail("cycle-unnamed", "the import graph has a cycle, but the error says: %v", err)
		}
	}
}

func (f Files) names() []string {
	var out []string
	for n := range f {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func fileName(i int) string { return string(rune('a'+i)) + ".ridl" }

// graphFile is file i importing others, with a definition of each kind; its
// struct and service refer to what its direct imports bring.
func graphFile(i int, imports []int) *Doc {
	d := &Doc{}
	d.Add(&Head{Key: "webrpc", Val: W("v1")}, &Head{Key: "version", Val: W("v" + fmt.Sprint(i))})
	for _, j := range imports {
		d.Add(&Imp{Path: W(fileName(j))})
	}
	c := string(rune('A' + i))
	st := &Struct{Name: "St" + c, Fields: []Field{{Name: "own", T: L(N("En" + c))}}}
	m := Method{Name: "M", In: []Arg{{Name: "x", T: N("St" + c)}}, Errs: []string{"Er" + c}}
	for _, j := range imports {
		if j == i {
			continue
		}
		o := string(rune('A' + j))
		st.Fields = append(st.Fields, Field{Name: "f" + o, T: M("En"+o, N("St"+o))})
		m.Errs = append(m.Errs, "Er"+o)
	}
	d.Add(st, &Enum{Name: "En" + c, T: "int", Mem: []Member{{Name: "X" + c}}},
		&Err{Code: fmt.Sprint(i + 1), Name: "Er" + c, Msg: Q("m")},
		&Svc{Name: "Sv" + c, Methods: []Method{m}})
	return d
}

// orderedSubsets of the given set.
func orderedSubsets(set []int) [][]int {
	out := [][]int{{}}
	for i := 0; i < len(out); i++ {
		for _, e := range set {
			used := false
			for _, f := range out[i] {
				used = used || f == e
			}
			if !used {
				out = append(out, append(append([]int{}, out[i]...), e))
			}
		}
	}
	return out
}

func graphFamily(name, bound string, n int, opts func(i int) [][]int) *engine.Family {
	os := make([][][]int, n)
	for i := range os {
		os[i] = opts(i)
	}
	return &engine.Family{
		Name: name, Bound: bound,
		Run: func(x *engine.X, w *engine.W) {
			pick := make([][]int, n)
			for i := range pick {
				pick[i] = os[i][x.Choose(len(os[i]))]
			}
			runFiles(w, func() (Files, string) {
				f := Files{}
				for i := range pick {
					f[fileName(i)] = graphFile(i, pick[i])
				}
				return f, fileName(0)
			})
		},
	}
}

func upto(from, to, but int) (out []int) {
	for i := from; i < to; i++ {
		if i != but {
			out = append(out, i)
		}
	}
	return
}

func p08Three() *engine.Family {
	return graphFamily("graphs-3", "all import graphs of 3 files, self-imports and import orders included", 3, func(i int) [][]int { return orderedSubsets(upto(0, 3, -1)) })
}

func p08Four(w *engine.W) *engine.Family {
	return graphFamily("graphs-4", "all import graphs of 4 files in every import order", 4, func(i int) [][]int { return orderedSubsets(upto(0, 4, i)) })
}

func p08Five(w *engine.W) *engine.Family {
	if w.Thorough() {
		sub := func(set []int) (out [][]int) {
			for m := 0; m < 1<<len(set); m++ {
				var s []int
				for k, e := range set {
					if m>>k&1 == 1 {
						s = append(s, e)
					}
				}
				out = append(out, s)
			}
			return
		}
		return graphFamily("graphs-5", "all import graphs of 5 files, imports in ascending order", 5, func(i int) [][]int { return sub(upto(0, 5, i)) })
	}
	return graphFamily("dags-5", "all acyclic import graphs of 5 files in a fixed rank, in every import order", 5, func(i int) [][]int { return orderedSubsets(upto(i+1, 5, -1)) })
}

func p08Six(w *engine.W) *engine.Family {
	rev := func(set []int) (out [][]int) {
		for m := 0; m < 1<<len(set); m++ {
			var s []int
			for k := len(set) - 1; k >= 0; k-- {
				if m>>k&1 == 1 {
					s = append(s, set[k])
				}
			}
			out = append(out, s)
		}
		return
	}
	return graphFamily("dags-6", "all acyclic import graphs of 6 files in a fixed rank, imports in descending order", 6, func(i int) [][]int { return rev(upto(i+1, 6, -1)) })
}

// p08Lib has a definition of every kind, referring to each other.
func p08Lib() *Doc {
	return NewDoc(
		&Enum{Name: "Color", T: "string", Mem: []Member{{Name: "Red"}}},
		&Struct{Name: "Paint", Fields: []Field{{Name: "c", T: N("Color")}}},
		&Err{Code: "50", Name: "Dry", Msg: Q("m")},
		&Svc{Name: "Shop", Methods: []Method{{Name: "Buy", In: []Arg{{Name: "p", T: N("Paint")}}, Errs: []string{"Dry"}}}},
	)
}

var p08Names = []string{"Color", "Paint", "Dry", "Shop"}

func members(mask int, names []string) (out []string) {
	for i, n := range names {
		if mask>>i&1 == 1 {
			out = append(out, n)
		}
	}
	return
}

func p08Members(w *engine.W) *engine.Family {
	names := append([]string{}, p08Names...)
	bound := "every member list over 4 definitions on each of the 4 edges of a diamond"
	return &engine.Family{
		Name: "members-diamond", Bound: bound,
		Run: func(x *engine.X, w *engine.W) {
			var m [4]int
			for i := range m {
				m[i] = x.Choose(16)
			}
			runFiles(w, func() (Files, string) {
				return Files{
					"a.ridl": NewDoc(&Imp{Path: W("b.ridl"), Members: members(m[0], names)}, &Imp{Path: W("c.ridl"), Members: members(m[1], names)}),
					"b.ridl": NewDoc(&Imp{Path: W("d.ridl"), Members: members(m[2], names)}, &Struct{Name: "Bt"}),
					"c.ridl": NewDoc(&Imp{Path: W("d.ridl"), Members: members(m[3], names)}, &Alias{Name: "Ct", T: N("int")}),
					"d.ridl": p08Lib(),
				}, "a.ridl"
			})
		},
	}
}

// p08Twice imports one file two or three times with different member lists, some
// naming things in the wrong case or not at all there.
func p08Twice() *engine.Family {
	names := append(append([]string{}, p08Names...), "color", "Nope")
	return &engine.Family{
		Name: "members-twice", Bound: "every pair of member lists over 6 names on two imports of the same file, directly or one level down, used or not",
		Run: func(x *engine.X, w *engine.W) {
			a, b := x.Choose(64), x.Choose(64)
			shape := x.Choose(3)
			runFiles(w, func() (Files, string) {
				f := Files{"d.ridl": p08Lib()}
				i1, i2 := &Imp{Path: W("d.ridl"), Members: members(a, names)}, &Imp{Path: W("d.ridl"), Members: members(b, names)}
				switch shape {
				case 0:
					f["a.ridl"] = NewDoc(i1, &Struct{Name: "Own"}, i2)
				case 1:
					f["a.ridl"] = NewDoc(&Imp{Path: W("b.ridl"), Members: members(b, names)})
					f["b.ridl"] = NewDoc(i1)
				case 2: // uses what it may not have imported
					f["a.ridl"] = NewDoc(i1, i2, &Struct{Name: "Own", Fields: []Field{{Name: "p", T: L(N("Paint"))}, {Name: "c", T: M("Color", N("any"))}}}, &Svc{Name: "Mine", Methods: []Method{{Name: "M", Errs: []string{"Dry"}}}})
				}
				return f, "a.ridl"
			})
		},
	}
}

// p08Many imports some of many definitions.
func p08Many(w *engine.W) *engine.Family {
	max := engine.Pick(w, 9, 20)
	return &engine.Family{
		Name: "members-many", Bound: fmt.Sprintf("1..%d definitions of one kind, and one of each other, in the imported file; member lists of the first k, the last k, all but one, one, two neighbours or every second of them, in order or reversed, and with or without one of another kind", max),
		Run: func(x *engine.X, w *engine.W) {
			n := 1 + x.Choose(max)
			kind := x.Choose(5)
			how := x.Choose(6)
			k := x.Choose(n)
			rev, more := x.Bool(), x.Bool()
			runFiles(w, func() (Files, string) {
				lib := NewDoc()
				add := func(kind int, name string, i int) {
					switch kind {
					case 0:
						lib.Add(&Struct{Name: name})
					case 1:
						lib.Add(&Enum{Name: name, T: "int", Mem: []Member{{Name: "A"}}})
					case 2:
						lib.Add(&Alias{Name: name, T: N("string")})
					case 3:
						lib.Add(&Err{Code: fmt.Sprint(10 + i), Name: name, Msg: Q(name)})
					case 4:
						lib.Add(&Svc{Name: name, Methods: []Method{{Name: "M" + name}}})
					}
				}
				var all []string
				for i := 0; i < 5; i++ {
					if i != kind {
						add(i, fmt.Sprintf("Other%d", i), 1000)
						continue
					}
					for j := 0; j < n; j++ {
						all = append(all, fmt.Sprintf("X%dx", j))
						add(kind, all[j], j)
					}
				}
				var ms []string
				for j, name := range all {
					switch how {
					case 0:
						if j > k {
							continue
						}
					case 1:
						if j < k {
							continue
						}
					case 2:
						if j == k {
							continue
						}
					case 3:
						if j != k {
							continue
						}
					case 4:
						if j != k && j != k+1 {
							continue
						}
					case 5:
						if (j+k)%2 == 0 {
							continue
						}
					}
					if rev {
						ms = append([]string{name}, ms...)
					} else {
						ms = append(ms, name)
					}
				}
				if more {
					ms = append(ms, fmt.Sprintf("Other%d", (kind+1)%5))
				}
				return Files{"a.ridl": NewDoc(&Imp{Path: W("b.ridl"), Members: ms}, &Struct{Name: "Own"}), "b.ridl": lib}, "a.ridl"
			})
		},
	}
}

// p08Long imports all, all but one, the first or last few of very many
// definitions of all kinds.
func p08Long(w *engine.W) *engine.Family {
	sizes := []int{}
	for n := 10; n <= 34; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257)
	if w.Thorough() {
		sizes = append(sizes, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2049)
	}
	return &engine.Family{
		Name: "members-long", Bound: fmt.Sprintf("member lists over %d numbers of definitions, up to %d of all kinds: all of them, all but one, one, or the first or last ones, at each of 9 places, in order or reversed", len(sizes), sizes[len(sizes)-1]),
		Run: func(x *engine.X, w *engine.W) {
			n := sizes[x.Choose(len(sizes))]
			how := x.Choose(4)
			place := x.Choose(9)
			rev := x.Bool()
			k := []int{0, 1, 9, n / 3, n / 2, n - 10, n - 3, n - 2, n - 1}[place]
			runFiles(w, func() (Files, string) {
				lib := NewDoc()
				var ms []string
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("X%dx", i)
					switch (i / 2) % 5 {
					case 0:
						lib.Add(&Struct{Name: name})
					case 1:
						lib.Add(&Err{Code: fmt.Sprint(10 + i), Name: name, Msg: Q(name)})
					case 2:
						lib.Add(&Enum{Name: name, T: "int", Mem: []Member{{Name: "A"}}})
					case 3:
						lib.Add(&Svc{Name: name, Methods: []Method{{Name: "M" + name}}})
					case 4:
						lib.Add(&Alias{Name: name, T: N("string")})
					}
					if how == 0 && i == k || how == 1 && i != k || how == 2 && i > k || how == 3 && i < k {
						continue
					}
					if rev {
						ms = append([]string{name}, ms...)
					} else {
						ms = append(ms, name)
					}
				}
				return Files{"a.ridl": NewDoc(&Imp{Path: W("b.ridl"), Members: ms}, &Struct{Name: "Own"}), "b.ridl": lib}, "a.ridl"
			})
		},
	}
}

// p08Wide has many imports in one file, of one file or of files that import it, each
// with a member list or none.
func p08Wide(w *engine.W) *engine.Family {
	max := engine.Pick(w, 6, 8)
	return &engine.Family{
		Name: "members-wide", Bound: fmt.Sprintf("1..%d imports of one file, or of files importing it, each with one of 3 member lists or none, before or after the definitions", max),
		Run: func(x *engine.X, w *engine.W) {
			n := 1 + x.Choose(max)
			shape := x.Choose(3)
			lists := make([]int, n)
			for i := range lists {
				lists[i] = x.Choose(4)
			}
			below := x.Bool()
			list := func(i int) []string {
				return [][]string{nil, {"Color"}, {"Paint", "Dry"}, {"Shop", "Color", "Dry"}}[lists[i]]
			}
			runFiles(w, func() (Files, string) {
				f := Files{"d.ridl": p08Lib()}
				var items []any
				for i := range lists {
					im := &Imp{Path: W("d.ridl"), Members: list(i)}
					switch shape {
					case 1: // the intermediate file has the list
						name := fmt.Sprintf("m%d.ridl", i)
						f[name] = NewDoc(im, &Struct{Name: fmt.Sprintf("Mid%d", i)})
						im = &Imp{Path: W(name)}
					case 2: // both have one
						name := fmt.Sprintf("m%d.ridl", i)
						f[name] = NewDoc(&Imp{Path: W("d.ridl"), Members: list((i + 1) % n)}, &Struct{Name: fmt.Sprintf("Mid%d", i)})
						im = &Imp{Path: W(name), Members: list(i)}
					}
					items = append(items, im)
				}
				own := &Struct{Name: "Own"}
				if below {
					items = append([]any{own}, items...)
				} else {
					items = append(items, own)
				}
				f["a.ridl"] = NewDoc(items...)
				return f, "a.ridl"
			})
		},
	}
}

// p08Same has two files with the same names: member lists decide if they clash.
func p08Same() *engine.Family {
	names := []string{"Xa", "Xb", "Xc"}
	lib := func(n, code int) *Doc {
		return NewDoc(&Struct{Name: "Xa"}, &Err{Code: fmt.Sprint(code), Name: "Xb", Msg: Q("m")}, &Svc{Name: "Xc", Methods: []Method{{Name: fmt.Sprintf("M%d", code)}}}, &Struct{Name: fmt.Sprintf("Lib%d", n)})
	}
	return &engine.Family{
		Name: "same-names", Bound: "every pair of member lists on two files declaring the same three names, alike or word for word, and the root declaring any of them",
		Run: func(x *engine.X, w *engine.W) {
			a, b, own := x.Choose(16), x.Choose(16), x.Choose(8)
			second := 2 - x.Choose(2)
			runFiles(w, func() (Files, string) {
				d := NewDoc(&Imp{Path: W("b.ridl"), Members: members(a, append(names, "Lib1"))}, &Imp{Path: W("c.ridl"), Members: members(b, append(names, "Lib2"))})
				if own&1 != 0 {
					d.Add(&Alias{Name: "Xa", T: N("int")})
				}
				if own&2 != 0 {
					d.Add(&Err{Code: "3", Name: "Xb", Msg: Q("m")})
				}
				if own&4 != 0 {
					d.Add(&Svc{Name: "Xc", Methods: []Method{{Name: "Own"}}})
				}
				return Files{"a.ridl": d, "b.ridl": lib(1, 1), "c.ridl": lib(2, second)}, "a.ridl"
			})
		},
	}
}

// edits1 are the strings at one edit from s: a character left out, doubled,
// replaced or put in, its case changed, a part left out or repeated.
func edits1(s string, put []string) (out []string) {
	seen := map[string]bool{s: true}
	add := func(t string) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for i := 0; i <= len(s); i++ {
		for _, c := range put {
			add(s[:i] + c + s[i:])
			if i < len(s) {
				add(s[:i] + c + s[i+1:])
			}
		}
		add(s[:i])
		add(s[i:])
		add(s + s[i:])
		if i < len(s) {
			add(s[:i] + s[i+1:])
			add(s[:i] + s[i:i+1] + s[i:])
			add(s[:i] + strings.ToUpper(s[i:i+1]) + s[i+1:])
			add(s[:i] + strings.ToLower(s[i:i+1]) + s[i+1:])
		}
	}
	return
}

// p08Near asks for members whose names are almost those of definitions.
func p08Near(w *engine.W) *engine.Family {
	put := engine.Pick(w, []string{"s", "_", "1"}, []string{"s", "S", "_", "1", "a", "é", "X"})
	type pair struct{ name, near string }
	var pairs []pair
	for _, n := range append([]string{"HTTPUsers2", "A"}, p08Names...) {
		for _, e := range append(edits1(n, put), n) {
			if e != "" {
				pairs = append(pairs, pair{n, e})
			}
		}
	}
	kinds := []func(n string) any{
		func(n string) any { return &Struct{Name: n, Fields: []Field{{Name: "c", T: N("int")}}} },
		func(n string) any { return &Enum{Name: n, T: "int", Mem: []Member{{Name: "X"}}} },
		func(n string) any { return &Alias{Name: n, T: N("int")} },
		func(n string) any { return &Err{Code: "9", Name: n, Msg: Q("m")} },
		func(n string) any { return &Svc{Name: n, Methods: []Method{{Name: "M"}}} },
	}
	return &engine.Family{
		Name: "members-near", Bound: fmt.Sprintf("%d pairs of a name and one at an edit from it: the file defines one, of every kind, and the member list asks for the other, alone or with a second one, quoted or not", len(pairs)),
		Run: func(x *engine.X, w *engine.W) {
			n := pairs[x.Choose(len(pairs))]
			k := kinds[x.Choose(len(kinds))]
			swap, more := x.Bool(), x.Choose(3)
			if swap {
				n.name, n.near = n.near, n.name
			}
			if c := n.name[0]; c < 'A' || c > 'Z' || strings.Contains(n.name, "é") {
				return
			}
			runFiles(w, func() (Files, string) {
				im := &Imp{Path: W("b.ridl"), Members: []string{n.near}}
				if more == 1 {
					im.Members = []string{"Other", n.near}
				} else if more == 2 {
					im.Members = []string{n.near, "Other"}
				}
				return Files{
					"a.ridl": NewDoc(im, &Struct{Name: "Own"}),
					"b.ridl": NewDoc(&Struct{Name: "Other"}, k(n.name)),
				}, "a.ridl"
			})
		},
	}
}

// p08Alike imports files whose paths are almost the same.
func p08Alike(w *engine.W) *engine.Family {
	put := engine.Pick(w, []string{"x", "_", "."}, []string{"x", "X", "_", ".", "/", "1", "b"})
	var pairs [][2]string
	for _, n := range []string{"base.ridl", "Lib/v1/Base.ridl"} {
		for _, e := range edits1(n, put) {
			if e != "" && !strings.HasPrefix(e, "/") && !strings.HasSuffix(e, "/") && path.Clean(e) == e && e != ".ridl" && e != "a.ridl" && !strings.HasPrefix(e, n+"/") && !strings.HasPrefix(n, e+"/") {
				pairs = append(pairs, [2]string{n, e}, [2]string{e, n})
			}
		}
	}
	return &engine.Family{
		Name: "alike", Bound: fmt.Sprintf("%d pairs of paths at one edit from each other: both imported, one from the other, or one there and the other asked for", len(pairs)),
		Run: func(x *engine.X, w *engine.W) {
			p := pairs[x.Choose(len(pairs))]
			shape := x.Choose(4)
			quoted := x.Bool()
			runFiles(w, func() (Files, string) {
				lit := func(s string) Lit { return Lit{s, quoted} }
				f := Files{
					p[0]: NewDoc(&Struct{Name: "First"}),
					p[1]: NewDoc(&Struct{Name: "Second"}),
				}
				switch shape {
				case 0:
					f["a.ridl"] = NewDoc(&Imp{Path: lit(p[0])}, &Imp{Path: lit(p[1])})
				case 1:
					f["a.ridl"] = NewDoc(&Imp{Path: lit(p[1])})
					f[p[1]].Add(&Imp{Path: lit(relPath(path.Dir(p[1]), p[0]))})
					if !strings.Contains(p[1], "/") {
						f[p[1]] = NewDoc(&Struct{Name: "Second"}, &Imp{Path: lit(p[0])})
					}
				case 2:
					f["a.ridl"] = NewDoc(&Imp{Path: lit(p[0])})
					delete(f, p[0])
				case 3:
					f["a.ridl"] = NewDoc(&Imp{Path: lit(p[0])}, &Imp{Path: lit(p[1])})
					delete(f, p[1])
				}
				return f, "a.ridl"
			})
		},
	}
}

// p08Paths spells the paths between files in different directories.
func p08Paths() *engine.Family {
	places := []string{"a.ridl", "x/b.ridl", "x/y/c.ridl", "z/d.ridl", "x/y/w/e-1.ridl", "z/name_2.v3.ridl"}
	spell := func(from, to string, k int) (string, bool) {
		dir := path.Dir(from)
		up := ""
		rest := dir
		for rest != "." && !strings.HasPrefix(to, rest+"/") {
			up += "../"
			rest = path.Dir(rest)
		}
		rel := to
		if rest != "." {
			rel = to[len(rest)+1:]
		}
		rel = up + rel
		all := to
		if dir != "." {
			all = strings.Repeat("../", strings.Count(dir, "/")+1) + to
		}
		switch k {
		case 0:
			return rel, true
		case 1:
			return "./" + rel, true
		case 2:
			return all, true
		case 3:
			return "no/such/../../../" + "x/" + all, dir == "." // leaves the tree and comes back
		case 4:
			return "q/../" + rel, true
		case 5:
			return strings.ReplaceAll(rel, "/", "//"), true
		case 6:
			return strings.ReplaceAll(rel, "/", "/./"), true
		}
		return "../" + all, false
	}
	const nspell = 8
	return &engine.Family{
		Name: "paths", Bound: fmt.Sprintf("every pair of %d places in a tree of directories, %d spellings of the path, quoted or not, alone and along two ways to the same file", len(places), nspell),
		Run: func(x *engine.X, w *engine.W) {
			from, to := places[x.Choose(len(places))], places[x.Choose(len(places))]
			k1, k2 := x.Choose(nspell), x.Choose(nspell)
			quoted := x.Bool()
			shape := x.Choose(3)
			if from == to || k1 == 3 || k2 == 3 {
				return
			}
			p1, _ := spell(from, to, k1)
			p2, _ := spell(from, to, k2)
			runFiles(w, func() (Files, string) {
				f := Files{}
				for i, p := range places {
					f[p] = graphFile(i, nil)
				}
				switch shape {
				case 0: // one import, twice the same file
					f[from].Add(&Imp{Path: Lit{p1, quoted}}, &Imp{Path: Lit{p2, quoted}})
					return f, from
				case 1: // through another file
					f["z/mid.ridl"] = NewDoc(&Imp{Path: Lit{relPath("z", from), quoted}}, &Imp{Path: Lit{relPath("z", to), !quoted}})
					f[from].Add(&Imp{Path: Lit{p1, quoted}})
					return f, "z/mid.ridl"
				}
				back, _ := spell(to, from, k2) // a cycle between the two
				f[from].Add(&Imp{Path: Lit{p1, quoted}})
				f[to].Add(&Imp{Path: Lit{back, quoted}})
				return f, from
			})
		},
	}
}

func relPath(dir, to string) string {
	if rest, ok := strings.CutPrefix(to, dir+"/"); ok {
		return rest
	}
	return strings.Repeat("../", strings.Count(dir, "/")+1) + to
}

// p08Place puts the import at any place among the definitions, alone or in a
// list.
func p08Place() *engine.Family {
	return &engine.Family{
		Name: "places", Bound: "two imports, each at any place among a file's headers and definitions, as statements or list, with or without members",
		Run: func(x *engine.X, w *engine.W) {
			items := graphFile(0, nil).Items
			n := len(items)
			i, j := x.Choose(n+1), x.Choose(n+1)
			form := x.Choose(4)
			swap := x.Bool()
			runFiles(w, func() (Files, string) {
				a, b := &Imp{Path: W("b.ridl")}, &Imp{Path: W("c.ridl")}
				if swap {
					a, b = b, a
				}
				a.InList, b.InList = form == 1, form == 1 || form == 2
				if form == 3 {
					a.Members, b.Members = []string{"StB", "EnB", "ErC", "StC", "EnC"}, []string{"EnC", "ErB"}
				}
				d := &Doc{}
				items := graphFile(0, nil).Items
				for k := 0; k <= n; k++ {
					if k == i {
						d.Add(a)
					}
					if k == j {
						d.Add(b)
					}
					if k < n {
						d.Add(items[k])
					}
				}
				return Files{"a.ridl": d, "b.ridl": graphFile(1, nil), "c.ridl": graphFile(2, nil)}, "a.ridl"
			})
		},
	}
}

// p08Chain has chains and fans of many files, closed to a cycle or not.
func p08Chain(w *engine.W) *engine.Family {
	max := engine.Pick(w, 14, 24)
	return &engine.Family{
		Name: "chains", Bound: fmt.Sprintf("chains of 1..%d files, without or with a cycle back to every file", max),
		Run: func(x *engine.X, w *engine.W) {
			n := 1 + x.Choose(max)
			back := x.Choose(n+1) - 1
			skip := x.Bool() // every file also imports the one after the next
			runFiles(w, func() (Files, string) {
				f := Files{}
				for i := 0; i < n; i++ {
					var im []int
					if i+1 < n {
						im = append(im, i+1)
					}
					if skip && i+2 < n {
						im = append(im, i+2)
					}
					if i == n-1 && back >= 0 {
						im = append(im, back)
					}
					f[fileName(i)] = graphFile(i, im)
				}
				return f, fileName(0)
			})
		},
	}
}

func p08Fan(w *engine.W) *engine.Family {
	max := engine.Pick(w, 22, 25)
	return &engine.Family{
		Name: "fans", Bound: fmt.Sprintf("one file importing 0..%d others that all import a last one, in order or reversed", max),
		Run: func(x *engine.X, w *engine.W) {
			n := x.Choose(max)
			rev := x.Bool()
			last := x.Bool()
			runFiles(w, func() (Files, string) {
				f := Files{}
				var im []int
				for i := 1; i <= n; i++ {
					k := i
					if rev {
						k = n + 1 - i
					}
					im = append(im, k)
					var sub []int
					if last {
						sub = []int{25}
					}
					f[fileName(i)] = graphFile(i, sub)
				}
				f[fileName(25)] = graphFile(25, nil)
				f[fileName(0)] = graphFile(0, im)
				return f, fileName(0)
			})
		},
	}
}

// p08Layout varies the layout of import statements.
func p08Layout(w *engine.W) *engine.Family {
	b := engine.Pick(w, 2, 3)
	docs := []*Doc{
		NewDoc(&Imp{Path: W("b.ridl"), Members: []string{"StB", "EnB", "ErB"}}, &Imp{Path: W("./c.ridl")}, &Struct{Name: "Own", Fields: []Field{{Name: "a", T: N("StB")}}}),
		NewDoc(&Imp{Path: W("b.ridl"), InList: true}, &Imp{Path: Q("x/../c.ridl"), InList: true}, &Struct{Name: "Own", Fields: []Field{{Name: "a", T: N("StC")}}}),
		NewDoc(&Struct{Name: "Own", Fields: []Field{{Name: "a", T: N("EnC")}}}, &Imp{Path: Q("c.ridl"), Members: []string{"EnC"}}, &Imp{Path: W("b.ridl"), Members: []string{"ErB"}}),
	}
	return &engine.Family{
		Name: "layouts", Budget: b, Bound: fmt.Sprintf("every layout of three importing files differing at up to %d places", b),
		Run: func(x *engine.X, w *engine.W) {
			d := docs[x.Choose(len(docs))]
			text := d.Layout(func(_ byte, n int) int { return x.Dev(n) })
			if !w.Mine(func() string { return text }) {
				return
			}
			f := Files{"a.ridl": d, "b.ridl": graphFile(1, nil), "c.ridl": graphFile(2, nil)}
			want, ok, _ := f.Expect("a.ridl")
			m := f.fs()
			m["a.ridl"] = text
			s, err := parseFS(m, "a.ridl")
			w.Step(1)
			w.State(text)
			o := outcome(s, err)
			if !ok || !o.OK {
				w.Fail("rejected", "rejected in this layout: %v (valid by the reference: %v)", err, ok)
			} else if exp := want.NoDocs(); exp != o.NoDc {
				w.Fail("differs", "the schema depends on layout:\n%s", diff(exp, o.NoDc))
			}
		},
	}
}

// p08Headers varies the headers of the importing and imported files.
func p08Headers() *engine.Family {
	return &engine.Family{
		Name: "headers", Bound: "every combination of present and absent headers, services and errors in a file and its import",
		Run: func(x *engine.X, w *engine.W) {
			var m [2][7]bool
			for i := range m {
				for j := range m[i] {
					m[i][j] = x.Bool()
				}
			}
			runFiles(w, func() (Files, string) {
				file := func(i int) *Doc {
					d := &Doc{}
					k := fmt.Sprint(i)
					if m[i][0] {
						d.Add(&Head{Key: "webrpc", Val: W("v1")})
					}
					if m[i][1] {
						d.Add(&Head{Key: "name", Val: W("name" + k)})
					}
					if m[i][2] {
						d.Add(&Head{Key: "version", Val: W("v" + k)})
					}
					if m[i][3] {
						d.Add(&Head{Key: "basepath", Val: W("/base" + k)})
					}
					if i == 0 {
						d.Add(&Imp{Path: W("b.ridl")})
					}
					if m[i][4] {
						d.Add(&Struct{Name: "St" + k})
					}
					if m[i][5] {
						d.Add(&Err{Code: "1" + k, Name: "Er" + k, Msg: Q("m")})
					}
					if m[i][6] {
						d.Add(&Svc{Name: "Sv" + k, Methods: []Method{{Name: "M"}}})
					}
					return d
				}
				return Files{"a.ridl": file(0), "b.ridl": file(1)}, "a.ridl"
			})
		},
	}
}

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P28",
		Rule: "An execution opens one path with webrpc.ParseSchemaFile from one working directory of a real directory tree and compares the schema with the reference for the file that the path names, or expects an error; a state is a distinct expected schema or kind of failure.",
		Assumptions: []string{
			"'..' does not follow a symbolic link in a path or an import; paths are valid UTF-8",
			"every directory that a path passes through exists",
			"paths ending in a slash or in '/.' are not in scope",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p28Spell(w), p28Imports(w), p28Kinds(), p28Names(w), p28History(w), p28Links(), p28Deep(w), p28Equal()}
		},
	})
}

// open is ParseSchemaFile with the schema of a failed validation left out.
func open(path string) (*schema.WebRPCSchema, error) {
	s, err := webrpc.ParseSchemaFile(path)
	if err != nil && strings.HasSuffix(path, ".json") {
		s = nil
	}
	return s, err
}

// tree makes directories and files below the worker's directory.
func tree(w *engine.W, name string, files map[string]string) string {
	root := filepath.Join(w.Dir, name)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.RemoveAll(root))
	must(os.MkdirAll(root, 0o755))
	for _, n := range sortedKeys(files) {
		p := filepath.Join(root, n)
		if strings.HasSuffix(n, "/") {
			must(os.MkdirAll(p, 0o755))
			continue
		}
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(files[n]), 0o644))
	}
	return root
}

func at(w *engine.W, dir string, f func()) {
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	os.Setenv("PWD", dir)
	defer func() {
		os.Chdir(w.Dir)
		os.Setenv("PWD", w.Dir)
	}()
	f()
}

// named is a document that says where it is.
func p28Doc(where string) *Doc {
	return (&Doc{}).Add(&Head{Key: "webrpc", Val: W("v1")}, &Head{Key: "name", Val: Q("at " + where)}, &Head{Key: "version", Val: W("v1")},
		&Alias{Name: "Al", T: N("string")}, &Struct{Name: "St", Fields: []Field{{Name: "x", T: L(N("Al"))}}}, &Svc{Name: "Sv", Methods: []Method{{Name: "Me"}}})
}

var p28Dirs = []string{"r", "r/a", "r/a/b", "r/c", "r/a/a"}

// walk follows a path component by component; ok when every step exists within
// the tree.
func walk(dirs []string, from string, comps []string) (string, bool) {
	cur := from
	for _, c := range comps {
		switch c {
		case ".", "":
		case "..":
			i := strings.LastIndex(cur, "/")
			if i < 0 {
				return "", false
			}
			cur = cur[:i]
		default:
			cur += "/" + c
		}
		found := false
		for _, d := range dirs {
			found = found || d == cur
		}
		if !found {
			return "", false
		}
	}
	return cur, true
}

// p28Spell: every way to write the path of a file.
func p28Spell(w *engine.W) *engine.Family {
	n := engine.Pick(w, 5, 7)
	comps := []string{".", "..", "a", "b", "c", "r", ""}
	root := ""
	return &engine.Family{
		Name: "spellings", Bound: fmt.Sprintf("every relative and absolute path of up to %d components ('.', '..', empty ones and names) through a tree of %d directories, from each directory, RIDL and JSON", n, len(p28Dirs)),
		Run: func(x *engine.X, w *engine.W) {
			cwd := p28Dirs[x.Choose(len(p28Dirs))]
			abs := x.Bool()
			ext := []string{".ridl", ".json"}[x.Choose(2)]
			cur := cwd
			if abs {
				cur = "r"
			}
			var cs []string
			for i := 0; i < n; i++ {
				k := x.Choose(len(comps) + 1)
				if k == len(comps) {
					break
				}
				c := comps[k]
				if c == "" && i == 0 && !abs {
					return // that would be an absolute path
				}
				next, ok := walk(p28Dirs, cur, []string{c})
				if !ok {
					return
				}
				cur = next
				cs = append(cs, c)
			}
			rel := strings.Join(append(cs, "main"+ext), "/")
			if !w.Mine(func() string { return fmt.Sprintf("in %s, absolute %v: %s", cwd, abs, rel) }) {
				return
			}
			if root == "" {
				files := map[string]string{}
				for _, d := range p28Dirs {
					files[d+"/main.ridl"] = p28Doc(d).RIDL()
					files[d+"/main.json"] = p28Doc(d).JSON(false)
				}
				root = tree(w, "spell", files)
			}
			p := rel
			if abs {
				p = root + "/r/" + rel
			}
			at(w, filepath.Join(root, cwd), func() {
				s, err := open(p)
				d := p28Doc(cur)
				d.Written = ext == ".json"
				want, ok := d.Expect()
				judge(w, s, err, want, ok)
			})
		},
	}
}

// p28Imports: every way to write an import from one directory to another.
func p28Imports(w *engine.W) *engine.Family {
	n := engine.Pick(w, 4, 6)
	comps := []string{".", "..", "a", "b", "c", "r"}
	return &engine.Family{
		Name: "imports", Bound: fmt.Sprintf("every import path of up to %d components between files of a tree of %d directories, chained through a second import back, opened from 3 working directories", n, len(p28Dirs)),
		Run: func(x *engine.X, w *engine.W) {
			from := p28Dirs[x.Choose(len(p28Dirs))]
			cur := from
			var cs []string
			for i := 0; i < n; i++ {
				k := x.Choose(len(comps) + 1)
				if k == len(comps) {
					break
				}
				next, ok := walk(p28Dirs, cur, []string{comps[k]})
				if !ok {
					return
				}
				cur = next
				cs = append(cs, comps[k])
			}
			cwd := []string{"r", from, cur}[x.Choose(3)]
			quoted := x.Bool()
			imp := strings.Join(append(cs, "lib.ridl"), "/")
			if imp[0] == '.' && !quoted {
				return // only a quoted path may start with a dot
			}
			if !w.Mine(func() string { return fmt.Sprintf("in %s: %s imports %s", cwd, from, imp) }) {
				return
			}
			last := (&Doc{}).Add(&Head{Key: "webrpc", Val: W("v1")}, &Struct{Name: "Last"})
			lib := (&Doc{}).Add(&Head{Key: "webrpc", Val: W("v1")}, &Imp{Path: Q("sub/last.ridl")}, &Struct{Name: "Lib", Fields: []Field{{Name: "l", T: N("Last")}}})
			main := p28Doc(from)
			main.Add(&Imp{Path: Lit{imp, quoted}}, &Struct{Name: "Use", Fields: []Field{{Name: "l", T: N("Lib")}}})
			fs := Files{from + "/main.ridl": main, cur + "/lib.ridl": lib, cur + "/sub/last.ridl": last}
			texts := map[string]string{}
			for n, d := range fs {
				texts[n] = d.RIDL()
			}
			for _, d := range p28Dirs {
				texts[d+"/"] = ""
				if d != cur { // decoys
					texts[d+"/lib.ridl"] = "webrpc = v1\nstruct Decoy\n"
					texts[d+"/sub/last.ridl"] = "webrpc = v1\nstruct Decoy\n"
				}
			}
			root := tree(w, "imports", texts)
			at(w, filepath.Join(root, cwd), func() {
				rel, err := filepath.Rel(cwd, from+"/main.ridl")
				if err != nil {
					panic(err)
				}
				want, ok, _ := fs.Expect(from + "/main.ridl")
				s, err := open(rel)
				if _, good := judge(w, s, err, want, ok); !good {
					return
				}
				s, err = open(filepath.Join(root, from, "main.ridl"))
				judge(w, s, err, want, ok)
			})
		},
	}
}

// p28Kinds: what isn't a schema file is an error.
func p28Kinds() *engine.Family {
	exts := []string{".ridl", ".json", "", ".RIDL", ".JSON", ".Ridl", ".ridl ", ".ridl.", ".rid", ".ridll", ".txt", ".yaml", ".jsonc", ".json5", ".ridl.txt", ".ridl.bak", ".json~", ".", ".go", "ridl", "json", ".json.ridl", ".ridl.json"}
	kinds := []string{"RIDL text", "JSON text", "empty", "garbage", "directory", "missing", "link to RIDL", "link to JSON", "dangling link", "link to directory", "link to itself", "in a missing directory", "below a file", "invalid RIDL", "invalid JSON schema", "null", "directory with files"}
	return &engine.Family{
		Name: "kinds", Bound: fmt.Sprintf("%d extensions of %d kinds of files and non-files, by relative and absolute path", len(exts), len(kinds)),
		Run: func(x *engine.X, w *engine.W) {
			ext, kind, abs := exts[x.Choose(len(exts))], kinds[x.Choose(len(kinds))], x.Bool()
			if !w.Mine(func() string { return fmt.Sprintf("file with extension %q: %s, absolute %v", ext, kind, abs) }) {
				return
			}
			d := p28Doc("here")
			root := tree(w, "kinds", map[string]string{"ok.ridl": d.RIDL(), "ok.json": d.JSON(false), "dir/": ""})
			name := "file" + ext
			p := filepath.Join(root, name)
			var err error
			isRidl, isJSON := false, false
			switch kind {
			case "RIDL text":
				err = os.WriteFile(p, []byte(d.RIDL()), 0o644)
				isRidl = true
			case "JSON text":
				err = os.WriteFile(p, []byte(d.JSON(false)), 0o644)
				isJSON = true
			case "empty":
				err = os.WriteFile(p, nil, 0o644)
			case "garbage":
				err = os.WriteFile(p, []byte("\x7fELF\x00\x01"), 0o644)
			case "directory":
				err = os.Mkdir(p, 0o755)
			case "missing":
			case "link to RIDL":
				err = os.Symlink("ok.ridl", p)
				isRidl = true
			case "link to JSON":
				err = os.Symlink("ok.json", p)
				isJSON = true
			case "dangling link":
				err = os.Symlink("gone.ridl", p)
			case "link to directory":
				err = os.Symlink("dir", p)
			case "link to itself":
				err = os.Symlink(name, p)
			case "in a missing directory":
				name = "gone/" + name
			case "below a file":
				name = "ok.ridl/" + name
			case "invalid RIDL":
				err = os.WriteFile(p, []byte(d.RIDL()+"\nstruct St\n"), 0o644)
			case "invalid JSON schema":
				err = os.WriteFile(p, []byte(strings.Replace(d.JSON(false), `"struct"`, `"union"`, 1)), 0o644)
			case "null":
				err = os.WriteFile(p, []byte("null"), 0o644)
			case "directory with files":
				if err = os.Mkdir(p, 0o755); err == nil {
					err = os.WriteFile(filepath.Join(p, "main"+ext), []byte(d.RIDL()), 0o644)
				}
			}
			if err != nil {
				panic(err)
			}
			e := filepath.Ext(ext)
			ok := isRidl && e == ".ridl" || isJSON && e == ".json"
			if abs {
				name = root + "/" + name
			}
			at(w, root, func() {
				s, err := webrpc.ParseSchemaFile(name)
				if ok {
					d.Written = isJSON
					want, _ := d.Expect()
					judge(w, s, err, want, true)
					return
				}
				w.Step(1)
				w.State(kind + ext)
				if err == nil {
					w.Fail("accepted", "no error, schema: %v", s != nil)
				} else if err.Error() == "" {
					w.Fail("empty-error", "the error has no text")
				}
			})
		},
	}
}

// p28Names: odd but legal file and directory names.
func p28Names(w *engine.W) *engine.Family {
	ws := words([]string{"a", ".", " ", "-", "\u00e9", "\\", "%2F", "*", "\n"}, 0, engine.Pick(w, 3, 4))
	ws = append(ws, "~", "~root", "$HOME", "C:", "a:b", "[x]", "{x}", "#x", "?x=y", "\u4e16\u754c", "\U0001F600", strings.Repeat("n", 250), "\x01", "'", "\"", ";", "&&", "file://x", "http:", "ridl", "json")
	var names []string
	for _, s := range ws {
		if !strings.Contains(s, "/") {
			names = append(names, s)
		}
	}
	return &engine.Family{
		Name: "names", Bound: fmt.Sprintf("%d names of a file and of its directory, RIDL and JSON, relative and absolute, and imported", len(names)),
		Run: func(x *engine.X, w *engine.W) {
			n := names[x.Choose(len(names))]
			inDir := x.Bool()
			ext := []string{".ridl", ".json"}[x.Choose(2)]
			file := n + ext
			if inDir {
				if n == "" || n == "." || n == ".." {
					return
				}
				file = n + "/main" + ext
			}
			if !w.Mine(func() string { return fmt.Sprintf("%q", file) }) {
				return
			}
			d := p28Doc("here")
			d.Written = ext == ".json"
			text := d.RIDL()
			if d.Written {
				text = d.JSON(false)
			}
			root := tree(w, "names", map[string]string{file: text})
			at(w, root, func() {
				for _, p := range []string{file, "./" + file, root + "/" + file} {
					s, err := open(p)
					want, ok := d.Expect()
					if _, good := judge(w, s, err, want, ok); !good {
						w.Fail("path", "for the path %q", p)
						return
					}
				}
				if d.Written || len(file) > 250 || strings.ContainsAny(file, "\"\\\n") {
					return
				}
				// The same names, and some that end in blanks, imported.
				for _, imp := range []string{file, "./" + file, file + " ", " " + file} {
					main := p28Doc("main")
					main.Add(&Imp{Path: Q(imp)})
					lib := (&Doc{}).Add(&Head{Key: "webrpc", Val: W("v1")}, &Struct{Name: "Lib"})
					clean := filepath.Clean(imp)
					texts := map[string]string{"imp.ridl": main.RIDL(), clean: lib.RIDL()}
					fs := Files{"imp.ridl": main, clean: lib}
					if clean == "imp.ridl" {
						continue
					}
					root := tree(w, "imported", texts)
					want, ok, _ := fs.Expect("imp.ridl")
					s, err := open(root + "/imp.ridl")
					if _, good := judge(w, s, err, want, ok); !good {
						w.Fail("path", "for the import %q", imp)
						return
					}
				}
			})
		},
	}
}

// p28History: every open sees the files as they are now.
func p28History(w *engine.W) *engine.Family {
	n := engine.Pick(w, 5, 6)
	return &engine.Family{
		Name: "histories", Bound: fmt.Sprintf("all sequences of %d changes to two files (new content, invalid content, removal), changes of directory and opens", n),
		Run: func(x *engine.X, w *engine.W) {
			ops := make([]int, n)
			for i := range ops {
				ops[i] = x.Choose(8)
			}
			if !w.Mine(func() string { return fmt.Sprint(ops) }) {
				return
			}
			root := tree(w, "history", map[string]string{"main.ridl": "", "sub/": ""})
			main := filepath.Join(root, "main.ridl")
			lib := filepath.Join(root, "sub/lib.ridl")
			cwd := root
			gen := 0
			files := Files{}
			write := func(k int) {
				d := (&Doc{}).Add(&Head{Key: "webrpc", Val: W("v1")}, &Head{Key: "name", Val: W(fmt.Sprintf("n%d", gen))})
				if k == 0 {
					d.Add(&Imp{Path: W("sub/lib.ridl")})
				}
				d.Add(&Struct{Name: []string{"Main", "Lib"}[k], Fields: []Field{{Name: fmt.Sprintf("f%d", gen), T: N("int")}}})
				files[[]string{"main.ridl", "sub/lib.ridl"}[k]] = d
				os.WriteFile([]string{main, lib}[k], []byte(d.RIDL()), 0o644)
			}
			write(0)
			write(1)
			check := func() {
				at(w, cwd, func() {
					rel, _ := filepath.Rel(cwd, main)
					s, err := open(rel)
					want, ok, _ := files.Expect("main.ridl")
					judge(w, s, err, want, ok)
				})
			}
			for _, op := range ops {
				gen++
				switch op {
				case 0, 1:
					write(op)
				case 2:
					os.WriteFile(lib, []byte("webrpc = v1\nstruct Lib\n  - ?\n"), 0o644)
					delete(files, "sub/lib.ridl")
				case 3:
					os.Remove(lib)
					delete(files, "sub/lib.ridl")
				case 4:
					os.Remove(main)
					delete(files, "main.ridl")
				case 5:
					cwd = root
				case 6:
					cwd = filepath.Join(root, "sub")
				case 7:
					check()
				}
			}
			check()
		},
	}
}

// p28Links: symbolic links on the way, and what PWD says.
func p28Links() *engine.Family {
	return &engine.Family{
		Name: "links", Bound: "links to a file and to directories on the way to it, working directories entered through a link, PWD right, unset or wrong; RIDL and JSON",
		Run: func(x *engine.X, w *engine.W) {
			cwd := []string{"", "real", "ln", "ln/deep", "real/deep"}[x.Choose(5)]
			pwd := x.Choose(4)
			target := []string{"real/main", "ln/main", "flink", "ln/deep/main", "real/deep/main", "lnln/main", "lnln/deep/main"}[x.Choose(7)]
			ext := []string{".ridl", ".json"}[x.Choose(2)]
			rel := x.Bool()
			if rel && cwd != "" {
				// only downwards, '..' after a link is out of scope
				if !strings.HasPrefix(target, cwd+"/") {
					return
				}
			}
			if !w.Mine(func() string { return fmt.Sprintf("in %q (PWD %d): %s%s, relative %v", cwd, pwd, target, ext, rel) }) {
				return
			}
			a, b := p28Doc("real"), p28Doc("deep")
			files := map[string]string{"real/main.ridl": a.RIDL(), "real/main.json": a.JSON(false), "real/deep/main.ridl": b.RIDL(), "real/deep/main.json": b.JSON(false)}
			root := tree(w, "links", files)
			for l, t := range map[string]string{"ln": "real", "lnln": "ln", "flink.ridl": "real/main.ridl", "flink.json": "ln/main.json"} {
				if err := os.Symlink(t, filepath.Join(root, l)); err != nil {
					panic(err)
				}
			}
			d := a
			if strings.Contains(target, "deep") {
				d = b
			}
			d.Written = ext == ".json"
			dir := filepath.Join(root, cwd)
			at(w, dir, func() {
				switch pwd {
				case 1:
					os.Unsetenv("PWD")
				case 2:
					os.Setenv("PWD", "/")
				case 3:
					real, _ := filepath.EvalSymlinks(dir)
					os.Setenv("PWD", real)
				}
				p := filepath.Join(root, target+ext)
				if rel {
					p = strings.TrimPrefix(target+ext, cwd+"/")
					if cwd == "" {
						p = target + ext
					}
				}
				s, err := open(p)
				want, ok := d.Expect()
				judge(w, s, err, want, ok)
			})
		},
	}
}

// p28Deep: deep trees, long chains of parents.
func p28Deep(w *engine.W) *engine.Family {
	max := engine.Pick(w, 30, 100)
	return &engine.Family{
		Name: "depth", Bound: fmt.Sprintf("a file 0..%d directories below or above the working directory, importing a file at the top through that many '..'", max),
		Run: func(x *engine.X, w *engine.W) {
			n := x.Choose(max + 1)
			up := x.Bool()
			if !w.Mine(func() string { return fmt.Sprintf("depth %d, up %v", n, up) }) {
				return
			}
			down := strings.Repeat("d/", n)
			top := strings.Repeat("../", n)
			main := p28Doc("main")
			main.Add(&Imp{Path: Q(top + "lib.ridl")}, &Struct{Name: "Use", Fields: []Field{{Name: "l", T: N("Lib")}}})
			lib := (&Doc{}).Add(&Head{Key: "webrpc", Val: W("v1")}, &Struct{Name: "Lib"})
			fs := Files{down + "main.ridl": main, "lib.ridl": lib}
			root := tree(w, "deep", map[string]string{down + "main.ridl": main.RIDL(), "lib.ridl": lib.RIDL(), down + "x/" + strings.Repeat("e/", n): ""})
			want, ok, _ := fs.Expect(down + "main.ridl")
			cwd, p := root, down+"main.ridl"
			if up {
				cwd, p = filepath.Join(root, down, "x", strings.Repeat("e/", n)), "../"+top+"main.ridl"
			}
			at(w, cwd, func() {
				s, err := open(p)
				judge(w, s, err, want, ok)
			})
		},
	}
}

// p28Equal: a file gives what its content gives.
func p28Equal() *engine.Family {
	n := mutate(rich(), -1)
	return &engine.Family{
		Name: "content", Bound: fmt.Sprintf("a document with every construct and each of %d single edits of it, as RIDL and JSON files, compared with parsing the content", n),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(n+1) - 1
			js := x.Bool()
			build := func() (string, string, bool) {
				d := rich()
				if k >= 0 {
					mutate(d, k)
				}
				if js {
					if !jsonable(d) {
						return "", "", false
					}
					return "main.json", d.JSON(false), true
				}
				if !ridlable(d) {
					return "", "", false
				}
				return "main.ridl", d.RIDL(), true
			}
			if !w.Mine(func() string { _, t, _ := build(); return t }) {
				return
			}
			name, text, ok := build()
			if !ok {
				return
			}
			root := tree(w, "content", map[string]string{"a/b/" + name: text})
			var want Outcome
			if js {
				want = outcome(parseJSON(text))
			} else {
				want = outcome(parseText(text))
			}
			at(w, filepath.Join(root, "a"), func() {
				w.Step(1)
				got := outcome(open("b/../b/" + name))
				w.State(want.Dump)
				if got.OK != want.OK || got.Dump != want.Dump {
					w.Fail("differs", "the file gives something else than its content: %v, %v\n%s", got.Err, want.Err, diff(want.Dump, got.Dump))
				}
			})
		},
	}
}

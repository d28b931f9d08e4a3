// weave DIR PKG...: write to DIR copies of the packages' files in which go
// statements, channel operations and package sync go through verifsched, and
// DIR/overlay.json for go build -overlay. What it cannot rewrite it leaves, and
// names in DIR/notes.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "weave:", err)
		os.Exit(2)
	}
}

type edit struct {
	from, to int // to == from: insertion
	text     string
}

type weaver struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	base  int
	edits []edit
	notes []string
	n     int
	used  bool
	two   map[ast.Expr]bool // receives that also ask whether the channel is closed
}

func (v *weaver) at(p token.Pos) int { return v.fset.Position(p).Offset }

func (v *weaver) replace(from, to token.Pos, text string) {
	v.used = true
	v.edits = append(v.edits, edit{v.at(from), v.at(to), text})
}

func (v *weaver) note(n ast.Node, what string) {
	v.notes = append(v.notes, fmt.Sprintf("%v: %s", v.fset.Position(n.Pos()), what))
}

func (v *weaver) isChan(e ast.Expr) bool {
	t := v.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (v *weaver) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = v.info.Uses[id].(*types.Builtin)
	return ok
}

func (v *weaver) Visit(n ast.Node) ast.Visitor {
	switch n := n.(type) {
	case *ast.SelectStmt:
		v.note(n, "select")
		return nil
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			v.two[ast.Unparen(n.Rhs[0])] = true
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			v.two[ast.Unparen(n.Values[0])] = true
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			f := "verifsched.Recv("
			if v.two[n] {
				f = "verifsched.Recv2("
			}
			v.replace(n.OpPos, n.X.Pos(), f)
			v.replace(n.X.End(), n.X.End(), ")")
		}
	case *ast.SendStmt:
		v.replace(n.Pos(), n.Pos(), "verifsched.Send(")
		v.replace(n.Chan.End(), n.Value.Pos(), ")(")
		v.replace(n.Value.End(), n.Value.End(), ")")
	case *ast.CallExpr:
		if v.builtin(n.Fun, "close") && len(n.Args) == 1 {
			v.replace(n.Fun.Pos(), n.Fun.End(), "verifsched.Close")
		}
	case *ast.RangeStmt:
		if !v.isChan(n.X) {
			break
		}
		v.n++
		c, ok := fmt.Sprintf("verifC%d", v.n), fmt.Sprintf("verifOk%d", v.n)
		// for k := range ch {  =>  for c := ch; ; { k, ok := Recv2(c); if !ok { break };
		v.replace(n.For+3, n.X.Pos(), " "+c+" := ")
		key, decl := "_", ""
		if n.Key != nil {
			key = string(v.src[v.at(n.Key.Pos()):v.at(n.Key.End())])
		}
		op := ":="
		if n.Tok == token.ASSIGN {
			op, decl = "=", "var "+ok+" bool; "
		}
		v.replace(n.X.End(), n.Body.Lbrace+1, fmt.Sprintf("; ; { %s%s, %s %s verifsched.Recv2(%s); if !%s { break }; ", decl, key, ok, op, c, ok))
		ast.Walk(v, n.X)
		for _, s := range n.Body.List {
			ast.Walk(v, s)
		}
		return nil
	case *ast.GoStmt:
		call := n.Call
		if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
			v.replace(n.Go, call.Fun.Pos(), "verifsched.Go(")
			v.replace(lit.End(), call.End(), ")")
			ast.Walk(v, lit)
			return nil
		}
		if id, ok := call.Fun.(*ast.Ident); ok {
			if _, ok := v.info.Uses[id].(*types.Builtin); ok {
				v.note(n, "go statement with a builtin")
				return nil
			}
		}
		if len(call.Args) == 1 {
			if _, ok := v.info.TypeOf(call.Args[0]).(*types.Tuple); ok {
				v.note(n, "go statement with a call of several results")
				return nil
			}
		}
		// go f(a, b)  =>  { vf := f; va := a; vb := b; verifsched.Go(func() { vf(va, vb) }) }
		sig, _ := v.info.TypeOf(call.Fun).Underlying().(*types.Signature)
		if sig == nil {
			v.note(n, "go statement of unknown type")
			return nil
		}
		v.n++
		f := fmt.Sprintf("verifF%d", v.n)
		v.replace(n.Go, call.Fun.Pos(), "{ "+f+" := ")
		last, args := call.Fun.End(), []string{}
		for i, a := range call.Args {
			name := fmt.Sprintf("verifA%d_%d", v.n, i)
			tv := v.info.Types[a]
			if tv.Value != nil || tv.IsNil() { // untyped constants and nil are used in place
				args = append(args, string(v.src[v.at(a.Pos()):v.at(a.End())]))
				v.replace(last, a.End(), "")
			} else {
				args = append(args, name)
				v.replace(last, a.Pos(), "; "+name+" := ")
			}
			last = a.End()
		}
		dots := ""
		if call.Ellipsis != token.NoPos {
			dots = "..."
		}
		v.replace(last, call.End(), fmt.Sprintf("; verifsched.Go(func() { %s(%s%s) }) }", f, strings.Join(args, ", "), dots))
		ast.Walk(v, call.Fun)
		for _, a := range call.Args {
			if tv := v.info.Types[a]; tv.Value == nil && !tv.IsNil() {
				ast.Walk(v, a)
			}
		}
		return nil
	case *ast.ImportSpec:
		if path, _ := strconv.Unquote(n.Path.Value); path == "sync" {
			if n.Name == nil {
				v.edits = append(v.edits, edit{v.at(n.Path.Pos()), v.at(n.Path.End()), `sync "verifsched/sync"`})
			} else {
				v.edits = append(v.edits, edit{v.at(n.Path.Pos()), v.at(n.Path.End()), `"verifsched/sync"`})
			}
		}
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if p, ok := v.info.Uses[id].(*types.PkgName); ok && p.Imported().Path() == "sync" {
				switch n.Sel.Name {
				case "Cond", "NewCond":
					v.note(n, "sync."+n.Sel.Name)
				}
			}
		}
	}
	return v
}

func main() {
	out := os.Args[1]
	b, err := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles"}, os.Args[2:]...)...).Output()
	if e, ok := err.(*exec.ExitError); ok {
		os.Stderr.Write(e.Stderr)
	}
	check(err)
	pkgs := map[string]*pkg{}
	for d := json.NewDecoder(bytes.NewReader(b)); ; {
		p := &pkg{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else {
			check(err)
		}
		pkgs[p.ImportPath] = p
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	replace := map[string]string{}
	var notes []string
	for _, path := range os.Args[2:] {
		p := pkgs[path]
		if p == nil {
			check(fmt.Errorf("no package %s", path))
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			check(err)
			files = append(files, a)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp}
		_, err := conf.Check(path, fset, files, info)
		check(err)
		for i, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(name)
			check(err)
			v := &weaver{fset: fset, info: info, src: src, two: map[ast.Expr]bool{}}
			ast.Walk(v, files[i])
			notes = append(notes, v.notes...)
			if v.used {
				v.edits = append(v.edits, edit{v.at(files[i].Name.End()), v.at(files[i].Name.End()), `; import verifsched "verifsched"`})
			}
			if len(v.edits) == 0 {
				continue
			}
			sort.SliceStable(v.edits, func(a, b int) bool { return v.edits[a].from < v.edits[b].from })
			var w bytes.Buffer
			at := 0
			for _, e := range v.edits {
				if e.from < at {
					check(fmt.Errorf("%s: edits overlap", name))
				}
				w.Write(src[at:e.from])
				w.WriteString(e.text)
				at = e.to
			}
			w.Write(src[at:])
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(name, "/"), "/", "_"))
			check(os.WriteFile(dst, w.Bytes(), 0o644))
			replace[name] = dst
		}
	}
	j, err := json.Marshal(map[string]any{"Replace": replace})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
	check(os.WriteFile(filepath.Join(out, "notes"), []byte(strings.Join(notes, "\n")), 0o644))
}

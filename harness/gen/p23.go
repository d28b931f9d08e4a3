package main

import (
	"encoding/json"
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P23",
		Rule: "An execution generates code from one document with one target and set of options: twice from the same schema, once from an equal schema, and once in another process, and compares the outputs with each other, the schema before and after, and what the template got with the schema passed in. Sequences of generations are compared with each generation on its own. A state is a distinct output.",
		Assumptions: []string{
			"javascript, kotlin, dart and openapi are the real embedded generators; golang and typescript are stand-ins, as the sandbox does not have them",
			"dependence on the iteration order of Go maps shows with each of the repeated generations with probability of at least a half; all else is decided exactly",
			"templates do not change the schema, and do not end the process",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p23Docs(w), p23Spell(w), p23Sequences(w), p23Vars(w), p23Options(w), p23Texts(), p23Output(), p23Args(), p23Sizes(w), p23Failures(), p23Format(w), p23Base(), p23Embedded()}
		},
	})
}

const p23All = `{{.WebrpcHeader}}|{{.SchemaHash}}|{{.WebrpcTarget}}|{{.CodeGen}}|{{.CodeGenName}}|{{.CodeGenVersion}}|{{.WebrpcGenVersion}}|{{.WebrpcGenCommand}}
{{toPrettyJson .Types}}{{toPrettyJson .Services}}{{toPrettyJson .Errors}}{{toPrettyJson .WebrpcErrors}}{{toPrettyJson .Opts}}
{{range .Types}}{{.Name}} {{.Kind}} {{range .Fields}}{{.Name}} {{.Type}} {{.Meta}}{{end}}{{end}}{{SchemaBigIntFieldsByType .WebRPCSchema}}
{{join (array (dict "h" "1" "g" "2" "f" "3" "e" "4" "d" "5" "c" "6" "b" "7" "a" "8") "x") "/"}}`

func p23Local(w *engine.W) string {
	return tmplDir(w, map[string]string{"main.go.tmpl": `{{define "main"}}` + p23All + `{{template "sub" .}}{{end}}`, "other.go.tmpl": `{{define "sub"}}sub {{.BasePath}}{{end}}`})
}

var p23Targets = []string{"json", "debug", "golang", "typescript", "javascript", "openapi", "kotlin", "dart", "LOCAL"}

func p23Target(w *engine.W, name string) (string, map[string]any) {
	switch name {
	case "LOCAL":
		return p23Local(w), map[string]any{"x": "1", "b": "", "a": "z"}
	case "golang":
		return name, map[string]any{"pkg": "proto"}
	case "debug":
		return name, map[string]any{"d": "", "c": "x", "b": "x", "a": "x"}
	case "openapi":
		return name, map[string]any{"apiVersion": "v3"}
	case "javascript", "kotlin", "dart":
		return name, map[string]any{"client": "true"}
	}
	return name, map[string]any{}
}

// repeated generates every way and reports what differs.
func repeated(w *engine.W, text, target string, opts map[string]any) {
	os.Args = []string{"webrpc-gen", "-schema=a.ridl", "-target=" + target}
	r := request{Text: text, Target: target, Opts: opts, Args: os.Args}
	s, err := parseText(text)
	if err != nil {
		return
	}
	before := Real(s)
	if before.Base == "" && len(s.Services) > 0 {
		before.Base = "/rpc/"
	}
	first, again := response{}, response{}
	for i, res := range []*response{&first, &again} {
		out, err := gen.Generate(s, target, &gen.Config{TemplateOptions: opts})
		if err != nil {
			res.Err = err.Error()
		} else {
			res.Code = out.Code
			if out.FormatErr != nil {
				w.Fail("format", "formatting without being asked to: %v", out.FormatErr)
			}
		}
		if now := Real(s).String(); now != before.String() {
			w.Fail("schema-changed", "generation %d changed the schema:\n%s", i+1, diff(before.String(), now))
			return
		}
	}
	w.Step(4)
	w.State(target + first.Err + first.Code)
	if first != again {
		w.Fail("repeat", "generating twice from the same schema differs:\n%s", diff(first.Err+first.Code, again.Err+again.Code))
		return
	}
	if equal := generate(r); equal != first {
		w.Fail("equal-schema", "generating from an equal schema differs:\n%s", diff(first.Err+first.Code, equal.Err+equal.Code))
		return
	}
	other, err := elsewhere(w, r)
	if err != nil {
		w.Fail("other-process", "%v", err)
	} else if other != first {
		w.Fail("other-process", "generating in another process differs:\n%s", diff(first.Err+first.Code, other.Err+other.Code))
	}
}

func p23Docs(w *engine.W) *engine.Family {
	n := mutate(rich(), -1)
	step := engine.Pick(w, 2, 1)
	return &engine.Family{
		Name: "documents", Bound: fmt.Sprintf("the document with every construct, all its valid single edits (%d edits; every %d for the slower generators) and one document per construct and pair of constructs, with every target", n, step),
		Run: func(x *engine.X, w *engine.W) {
			name := p23Targets[x.Choose(len(p23Targets))]
			var build func() *Doc
			switch x.Choose(3) {
			case 0:
				k := x.Choose(n + 1)
				fast := name == "LOCAL" || name == "json" || name == "golang" || name == "typescript"
				if !fast && k%step == 1 {
					return
				}
				build = func() *Doc {
					d := rich()
					if k < n {
						mutate(d, k)
					}
					return d
				}
			case 1:
				k := x.Choose(menuSize)
				build = func() *Doc { return smallDoc(k) }
			case 2:
				a, b := x.Choose(menuSize), x.Choose(menuSize)
				build = func() *Doc { return NewDoc(append(support(), menu(a, 1), menu(b, 2))...) }
			}
			d := build()
			if _, ok := d.Expect(); !ok || !ridlable(d) {
				return
			}
			if !w.Mine(func() string { return name + " from\n" + d.RIDL() }) {
				return
			}
			target, opts := p23Target(w, name)
			repeated(w, d.RIDL(), target, opts)
		},
	}
}

// p23Spell: all names of an embedded generator name the same one.
func p23Spell(w *engine.W) *engine.Family {
	names := []string{"golang", "typescript", "javascript", "openapi", "kotlin", "dart"}
	return &engine.Family{
		Name: "names", Bound: "every name of every embedded generator, with the document of every construct and one document per construct",
		Run: func(x *engine.X, w *engine.W) {
			n := names[x.Choose(len(names))]
			k := x.Choose(menuSize + 1)
			build := func() *Doc {
				if k == menuSize {
					return rich()
				}
				return smallDoc(k)
			}
			if !w.Mine(func() string { return n + " from\n" + build().RIDL() }) {
				return
			}
			v := p23Versions()[n]
			if v == "" {
				w.Fail("version", "go.mod names no version of gen-%s", n)
				return
			}
			_, opts := p23Target(w, n)
			var first string
			for i, target := range []string{n, n + "@" + v, "github.com/webrpc/gen-" + n, "github.com/webrpc/gen-" + n + "@" + v} {
				os.Args = []string{"webrpc-gen"}
				s, err := parseText(build().RIDL())
				if err != nil {
					return
				}
				out, err := gen.Generate(s, target, &gen.Config{TemplateOptions: opts})
				if err != nil {
					// templates may refuse a schema, but then by every name
					out = &gen.GenOutput{Code: "error", TemplateSource: out.TemplateSource}
				}
				code := strings.ReplaceAll(strings.ReplaceAll(out.Code, " for "+target, " for TARGET"), " with "+target+" generator", " with TARGET generator")
				w.State(code)
				if i == 0 {
					first = code
				} else if code != first {
					w.Fail("differs", "target %s gives other code than %s:\n%s", target, n, diff(first, code))
				}
				if want := "github.com/webrpc/gen-" + n + "@" + v; out.TmplVersion != want || !out.IsLocal {
					w.Fail("source", "target %s: templates %s (local %v), expected %s", target, out.TmplVersion, out.IsLocal, want)
				}
			}
		},
	}
}

var p23Mod = regexp.MustCompile(`(?m)^\s*github\.com/webrpc/gen-([a-z]+) (v[^\s]+)`)

func p23Versions() map[string]string {
	m := map[string]string{}
	for _, g := range p23Mod.FindAllStringSubmatch(webrpc.GoModFile, -1) {
		m[g[1]] = g[2]
	}
	return m
}

func p23Embedded() *engine.Family {
	return &engine.Family{
		Name: "embedded", Bound: "the table of embedded generators against go.mod",
		Run: func(x *engine.X, w *engine.W) {
			if !w.Mine(func() string { return "the embedded generators" }) {
				return
			}
			var want []string
			for _, g := range p23Mod.FindAllStringSubmatch(webrpc.GoModFile, -1) {
				want = append(want, g[1])
			}
			if got := strings.Join(gen.EmbeddedTargetNames, " "); got != strings.Join(want, " ") {
				w.Fail("names", "embedded generators %s, go.mod has %v", got, want)
			}
			if len(gen.EmbeddedTargets) != 4*len(want) {
				w.Fail("number", "%d names of embedded generators, expected %d", len(gen.EmbeddedTargets), 4*len(want))
			}
		},
	}
}

// p23Sequences: what was generated before does not matter.
func p23Sequences(w *engine.W) *engine.Family {
	depth := engine.Pick(w, 3, 4)
	docs := []func() *Doc{rich, func() *Doc { return smallDoc(15) }, func() *Doc { return NewDoc(append(support(), menu(11, 1))...) }}
	return &engine.Family{
		Name: "sequences", Bound: fmt.Sprintf("all sequences of up to %d generations with any targets, on one schema or on equal ones, of %d documents", depth, len(docs)),
		Run: func(x *engine.X, w *engine.W) {
			d := docs[x.Choose(len(docs))]
			shared := x.Bool()
			var seq []string
			for n := 2 + x.Choose(depth-1); n > 0; n-- {
				seq = append(seq, p23Targets[x.Choose(len(p23Targets))])
			}
			if !w.Mine(func() string { return fmt.Sprintf("%v shared %v from\n%s", seq, shared, d().RIDL()) }) {
				return
			}
			os.Args = []string{"webrpc-gen", "-x"}
			var s *schema.WebRPCSchema
			for i, name := range seq {
				if s == nil || !shared {
					var err error
					if s, err = parseText(d().RIDL()); err != nil {
						return
					}
				}
				target, opts := p23Target(w, name)
				before, _ := json.Marshal(opts)
				out, err := gen.Generate(s, target, &gen.Config{TemplateOptions: opts})
				res := response{}
				if err != nil {
					res.Err = err.Error()
				} else {
					res.Code = out.Code
				}
				alone := p23Alone(w, d(), target, opts)
				if alone != res {
					w.Fail("history", "generation %d (%s) differs from the same one alone:\n%s", i+1, name, diff(alone.Err+alone.Code, res.Err+res.Code))
					return
				}
				if after, _ := json.Marshal(opts); string(after) != string(before) {
					w.Fail("options-changed", "options %s became %s", before, after)
				}
			}
			w.Step(len(seq))
			w.State(fmt.Sprint(seq))
		},
	}
}

var p23Cache = map[string]response{}

// p23Alone is the output of another process for the document.
func p23Alone(w *engine.W, d *Doc, target string, opts map[string]any) response {
	key := target + "\n" + d.RIDL()
	res, ok := p23Cache[key]
	if !ok {
		var err error
		res, err = elsewhere(w, request{Text: d.RIDL(), Target: target, Opts: opts, Args: os.Args})
		if err != nil {
			res = response{Err: err.Error()}
		}
		p23Cache[key] = res
	}
	return res
}

var p23Errors = `0 WebrpcEndpoint 400 "endpoint error"
-1 WebrpcRequestFailed 400 "request failed"
-2 WebrpcBadRoute 404 "bad route"
-3 WebrpcBadMethod 405 "bad method"
-4 WebrpcBadRequest 400 "bad request"
-5 WebrpcBadResponse 500 "bad response"
-6 WebrpcServerPanic 500 "server panic"
-7 WebrpcInternalError 500 "internal error"
-8 WebrpcClientAborted 400 "request aborted by client"
-9 WebrpcStreamLost 400 "stream lost"
-10 WebrpcStreamFinished 200 "stream finished"
`

// p23Vars: what the template gets.
func p23Vars(w *engine.W) *engine.Family {
	n := mutate(rich(), -1)
	dirs := []string{"plain", "gen-x", "gen-x@v1", "x@v1.2.3-rc", "a/gen-y", "gen-golang", "gen-golang@v9", "gen.v2", "a.b@v1", "@v1", "x@", "x@v1@v2", "go", "ts", "json", "GEN-X@V1", "a b@v 1", "a@1/b", "a;b@v;1"}
	return &engine.Family{
		Name: "variables", Bound: fmt.Sprintf("all variables that a template gets, for the %d single edits of the document with every construct and documents without name, version or services, from local directories of %d names", n, len(dirs)),
		Run: func(x *engine.X, w *engine.W) {
			dir := dirs[0]
			var build func() *Doc
			switch x.Choose(2) {
			case 0:
				k := x.Choose(n + 1)
				build = func() *Doc {
					d := rich()
					if k < n {
						mutate(d, k)
					}
					return d
				}
			case 1:
				dir = dirs[x.Choose(len(dirs))]
				name, version, svc := x.Bool(), x.Bool(), x.Bool()
				base := x.Choose(3)
				build = func() *Doc {
					d := (&Doc{}).Add(&Head{Key: "webrpc", Val: W("v1")})
					if name {
						d.Add(&Head{Key: "name", Val: Q("my api")})
					}
					if version {
						d.Add(&Head{Key: "version", Val: W("v2.0.1")})
					}
					if base > 0 {
						d.Add(&Head{Key: "basepath", Val: W([]string{"", "/rpc/", "/v2/api"}[base])})
					}
					d.Add(&Struct{Name: "St", Fields: []Field{{Name: "n", T: N("bigint")}}})
					if svc {
						d.Add(&Svc{Name: "Sv", Methods: []Method{{Name: "Me", In: []Arg{{Name: "a", T: N("St")}}}}})
					}
					return d
				}
			}
			d := build()
			if _, ok := d.Expect(); !ok || !ridlable(d) {
				return
			}
			if !w.Mine(func() string { return dir + " from\n" + d.RIDL() }) {
				return
			}
			s, err := parseText(d.RIDL())
			if err != nil {
				return
			}
			want := Real(s)
			if want.Base == "" && len(want.Svcs) > 0 {
				want.Base = "/rpc/"
			}
			target := filepath.Join(w.Dir, "vars", dir)
			if err := os.MkdirAll(target, 0o755); err != nil {
				panic(err)
			}
			if err := os.WriteFile(filepath.Join(target, "m.go.tmpl"), []byte(`{{define "main"}}{{call .Opts.see .}}{{call .Opts.big (SchemaUsesBigInts .WebRPCSchema) (SchemaBigIntFieldsByType .WebRPCSchema)}}done{{end}}`), 0o644); err != nil {
				panic(err)
			}
			os.Args = []string{"/some/where/webrpc-gen", "-a", "-b=c d"}
			var got *gen.TemplateVars
			var usesBig bool
			var big map[string][]any
			opts := map[string]any{
				"see": func(v gen.TemplateVars) string { got = &v; return "" },
				"big": func(b bool, m map[string][]any) string { usesBig, big = b, m; return "" },
				"k":   "v", "empty": "", "n": []int{1},
			}
			names := keys(opts)
			out, err := gen.Generate(s, target, &gen.Config{TemplateOptions: opts})
			if err != nil || got == nil {
				w.Fail("error", "%v", err)
				return
			}
			if out.Code != "done" || out.TmplVersion != target || out.TmplDir != target || !out.IsLocal || out.FormatErr != nil || out.CacheRefreshErr != nil {
				w.Fail("output", "code %q, templates %q in %q, local %v, errors %v %v", out.Code, out.TmplVersion, out.TmplDir, out.IsLocal, out.FormatErr, out.CacheRefreshErr)
			}
			if g := Real(got.WebRPCSchema).String(); g != want.String() {
				w.Fail("schema", "the template got another schema:\n%s", diff(want.String(), g))
			}
			hash, err := s.SchemaHash()
			if err != nil {
				w.Fail("hash", "%v", err)
			}
			base := dir[strings.LastIndex(dir, "/")+1:]
			name, version, _ := strings.Cut(base, "@")
			header := "webrpc@" + webrpc.VERSION + ";" + name + "@"
			if version == "" {
				header += "unknown;"
			} else {
				header += version + ";"
			}
			if want.Version == "" {
				header += want.Name + "@v0.0.0-" + hash
			} else {
				header += want.Name + "@" + want.Version
			}
			errs := ""
			for _, e := range got.WebrpcErrors {
				errs += fmt.Sprintf("%d %s %d %q\n", e.Code, e.Name, e.HTTPStatus, e.Message)
			}
			for _, f := range []struct{ what, got, want string }{
				{"SchemaHash", got.SchemaHash, hash},
				{"WebrpcGenVersion", got.WebrpcGenVersion, webrpc.VERSION},
				{"WebrpcGenCommand", got.WebrpcGenCommand, "webrpc-gen -a -b=c d"},
				{"WebrpcTarget", got.WebrpcTarget, target},
				{"CodeGen", got.CodeGen, base},
				{"CodeGenName", got.CodeGenName, name},
				{"CodeGenVersion", got.CodeGenVersion, version},
				{"WebrpcHeader", got.WebrpcHeader, header},
				{"WebrpcErrors", errs, p23Errors},
				{"Opts", fmt.Sprint(keys(got.Opts), got.Opts["k"], got.Opts["empty"], got.Opts["n"]), fmt.Sprint(names, "v", "", []int{1})},
				{"SchemaUsesBigInts", fmt.Sprint(usesBig), fmt.Sprint(schema.SchemaUsesBigInts(s))},
				{"SchemaBigIntFieldsByType", fmt.Sprint(big), fmt.Sprint(schema.SchemaBigIntFieldsByType(s))},
			} {
				if f.got != f.want {
					w.Fail(f.what, "%s is %q, expected %q", f.what, f.got, f.want)
				}
			}
			w.State(header + want.String())
		},
	}
}

// p23Options: options reach the template as they are.
func p23Options(w *engine.W) *engine.Family {
	alphabet := engine.Pick(w, []string{"a", "=", " ", "\"", "{{", "\n"}, []string{"a", "=", " ", "\"", "{{", "\n", "é", "\\", "<", "%s"})
	names := []string{"a", "a-b", "A", "é", "x.y", "help me", ""}
	texts := words(alphabet, 0, 3)
	return &engine.Family{
		Name: "options", Bound: fmt.Sprintf("every option value of up to 3 parts out of %d, under %d names, alone and with a second option", len(alphabet), len(names)),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(len(names))
			v := texts[x.Choose(len(texts))]
			second := x.Bool()
			if !w.Mine(func() string { return fmt.Sprintf("%q=%q second %v", names[k], v, second) }) {
				return
			}
			opts := map[string]any{names[k]: v}
			want := fmt.Sprintf("[%s=%s]", names[k], v)
			if second {
				opts["zz"] = "last"
				want += "[zz=last]"
				if names[k] == "é" {
					want = "[zz=last]" + fmt.Sprintf("[%s=%s]", names[k], v)
				}
			}
			given := fmt.Sprint(opts)
			got, err := eval(w, nil, `{{range $k, $v := .Opts}}[{{$k}}={{$v}}]{{end}}`, opts)
			if now := fmt.Sprint(opts); now != given {
				w.Fail("options changed", "the caller's options %s become %s", given, now)
			}
			if err != nil || got != want {
				w.Fail("option", "got %q (%v), expected %q", got, err, want)
			}
			w.State(want)
		},
	}
}

// p23Seen generates with a template that hands its variables out.
func p23Seen(w *engine.W, s *schema.WebRPCSchema, opts map[string]any) (*gen.TemplateVars, error) {
	target := tmplDir(w, map[string]string{"main.go.tmpl": `{{define "main"}}{{call .Opts.see .}}{{end}}`})
	var got *gen.TemplateVars
	given := map[string]any{"see": func(v gen.TemplateVars) string { got = &v; return "" }}
	for k, v := range opts {
		given[k] = v
	}
	before := keys(given)
	_, err := gen.Generate(s, target, &gen.Config{TemplateOptions: given})
	if err == nil && got == nil {
		err = fmt.Errorf("template not run")
	}
	if fmt.Sprint(before) != fmt.Sprint(keys(given)) {
		w.Fail("options changed", "the caller's options %q become %q", before, keys(given))
	}
	if got != nil && fmt.Sprint(before) != fmt.Sprint(keys(got.Opts)) {
		w.Fail("options", "of the options %q, the template sees %q", before, keys(got.Opts))
	}
	return got, err
}

// p23Texts: names and versions of a schema are any text.
func p23Texts() *engine.Family {
	texts := append([]string{""}, p20Words...)
	return &engine.Family{
		Name: "texts", Bound: fmt.Sprintf("schema names and versions of %d words of every kind, and options named so, with and without services", len(texts)),
		Run: func(x *engine.X, w *engine.W) {
			t := texts[x.Choose(len(texts))]
			place := x.Choose(4)
			svc := x.Bool()
			if !w.Mine(func() string { return fmt.Sprintf("%q at %d, services %v", t, place, svc) }) {
				return
			}
			s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "n", SchemaVersion: "v1"}
			if svc {
				s.Services = []*schema.Service{{Name: "Sv"}}
			}
			opts := map[string]any{"server": "", "client": "x"}
			switch place {
			case 0:
				s.SchemaName = t
			case 1:
				s.SchemaVersion = t
			case 2:
				s.SchemaName, s.SchemaVersion = t, t
			case 3:
				opts[t] = t
			}
			name, version := s.SchemaName, s.SchemaVersion
			os.Args = []string{"webrpc-gen"}
			got, err := p23Seen(w, s, opts)
			if err != nil {
				w.Fail("error", "%v", err)
				return
			}
			hash, _ := s.SchemaHash()
			want := name + "@" + version
			if version == "" {
				want = name + "@v0.0.0-" + hash
			}
			parts := strings.SplitN(got.WebrpcHeader, ";", 3)
			if got.SchemaName != name || got.SchemaVersion != version || got.SchemaHash != hash || len(parts) != 3 || parts[2] != want || parts[0] != "webrpc@"+webrpc.VERSION {
				w.Fail("texts", "name %q, version %q: the template sees %q, %q, hash %s and header %q, expected hash %s and header ending with %q", name, version, got.SchemaName, got.SchemaVersion, got.SchemaHash, got.WebrpcHeader, hash, want)
			}
			if place == 3 && got.Opts[t] != t && t != "client" {
				w.Fail("options", "option %q is %q", t, got.Opts[t])
			}
			w.State(got.WebrpcHeader)
		},
	}
}

// p23Output: what the template writes is the code, whatever it is.
func p23Output() *engine.Family {
	ends := []string{"", " ", "\n", "\n\n", "\t", "\r\n", "\ufeff", "\x00", "\xff", "é", "// x\n", "\u2028", "\x1a", "%!s(x)", "<a&b>", "<no value>"}
	return &engine.Family{
		Name: "output", Bound: fmt.Sprintf("output that starts, ends or is filled with %d texts (blanks, line ends, marks, bytes that are no UTF-8), of 1 to 70000 bytes", len(ends)),
		Run: func(x *engine.X, w *engine.W) {
			a, b := ends[x.Choose(len(ends))], ends[x.Choose(len(ends))]
			n := []int{0, 1, 100, 4096, 70000}[x.Choose(5)]
			if !w.Mine(func() string { return fmt.Sprintf("%q, %d bytes, %q", a, n, b) }) {
				return
			}
			fill := "m" + a
			want := a + strings.Repeat(fill, n/len(fill)) + b
			os.Args = []string{"webrpc-gen"}
			got, err := eval(w, nil, `{{.Opts.t}}`, map[string]any{"t": want})
			if err != nil || got != want {
				w.Fail("output", "starting with %q, %d bytes, ending with %q: the code has %d bytes instead of %d, starts with %q and ends with %q (%v)", a, n, b, len(got), len(want), got[:min(8, len(got))], got[max(0, len(got)-8):], err)
			}
			w.State(fmt.Sprintf("%q %d %q", a, n, b))
		},
	}
}

// p23Args: the command is the program's name and its arguments.
func p23Args() *engine.Family {
	progs := []string{"webrpc-gen", "/usr/bin/webrpc-gen", "./webrpc-gen", "a b/my gen", "x.test"}
	args := append([]string{""}, p20Words...)
	return &engine.Family{
		Name: "command", Bound: fmt.Sprintf("%d program names with 0 to 40 arguments, and with each of %d words as first, middle and last of 3", len(progs), len(args)),
		Run: func(x *engine.X, w *engine.W) {
			p := progs[x.Choose(len(progs))]
			var list []string
			if x.Bool() {
				for i, n := 0, x.Choose(41); i < n; i++ {
					list = append(list, fmt.Sprintf("-opt%d=v%d", i, i))
				}
			} else {
				list = []string{"-a", "-b=c d", "-e"}
				a := args[x.Choose(len(args))]
				list[x.Choose(3)] = a
			}
			if !w.Mine(func() string { return fmt.Sprintf("%q %q", p, list) }) {
				return
			}
			os.Args = append([]string{p}, list...)
			got, err := p23Seen(w, &schema.WebRPCSchema{WebrpcVersion: "v1"}, nil)
			want := filepath.Base(p)
			for _, a := range list {
				want += " " + a
			}
			if err != nil {
				w.Fail("error", "%v", err)
			} else if got.WebrpcGenCommand != want {
				w.Fail("command", "program %q with arguments %q: command %q, expected %q", p, list, got.WebrpcGenCommand, want)
			}
			w.State(want)
		},
	}
}

// p23Sizes: large schemas reach the template whole.
func p23Sizes(w *engine.W) *engine.Family {
	max := engine.Pick(w, 72, 300)
	kinds := []string{"structs", "enums", "aliases", "fields", "members", "services", "methods", "arguments", "errors", "bigint fields"}
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("schemas with 1..%d of each of %v: the template sees all of them and their hash", max, kinds),
		Run: func(x *engine.X, w *engine.W) {
			n := 1 + x.Choose(max)
			kind := kinds[x.Choose(len(kinds))]
			if !w.Mine(func() string { return fmt.Sprint(n, " ", kind) }) {
				return
			}
			str := func(e string) *schema.VarType { return &schema.VarType{Expr: e} }
			s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "n", SchemaVersion: "v1", BasePath: "/rpc/"}
			st := &schema.Type{Kind: "struct", Name: "St"}
			me := &schema.Method{Name: "Me"}
			sv := &schema.Service{Name: "Sv", Methods: []*schema.Method{me}}
			en := &schema.Type{Kind: "enum", Name: "En", Type: str("uint16")}
			s.Types, s.Services = []*schema.Type{st, en}, []*schema.Service{sv}
			for i := 0; i < n; i++ {
				num := fmt.Sprint(i)
				switch kind {
				case "structs":
					s.Types = append(s.Types, &schema.Type{Kind: "struct", Name: "S" + num})
				case "enums":
					s.Types = append(s.Types, &schema.Type{Kind: "enum", Name: "E" + num, Type: str("string")})
				case "aliases":
					s.Types = append(s.Types, &schema.Type{Kind: "alias", Name: "A" + num, Type: str("string")})
				case "fields":
					st.Fields = append(st.Fields, &schema.TypeField{Name: "f" + num, Type: str("[]int")})
				case "members":
					en.Fields = append(en.Fields, &schema.TypeField{Name: "m" + num, TypeExtra: schema.TypeExtra{Value: num}})
				case "services":
					s.Services = append(s.Services, &schema.Service{Name: "V" + num, Methods: []*schema.Method{{Name: "M"}}})
				case "methods":
					sv.Methods = append(sv.Methods, &schema.Method{Name: "M" + num})
				case "arguments":
					me.Inputs = append(me.Inputs, &schema.MethodArgument{Name: "a" + num, Type: str("string")})
					me.Outputs = append(me.Outputs, &schema.MethodArgument{Name: "b" + num, Type: str("St")})
				case "errors":
					s.Errors = append(s.Errors, &schema.Error{Code: i + 1, Name: "Er" + num, Message: "m", HTTPStatus: 400})
				case "bigint fields":
					st.Fields = append(st.Fields, &schema.TypeField{Name: "b" + num, Type: str("bigint")})
				}
			}
			if err := s.Validate(); err != nil {
				w.Fail("setup", "%v", err)
				return
			}
			want := Real(s).String()
			hash, _ := s.SchemaHash()
			text, _ := s.ToJSON()
			os.Args = []string{"webrpc-gen"}
			got, err := p23Seen(w, s, nil)
			if err != nil {
				w.Fail("error", "%v", err)
				return
			}
			if g := Real(got.WebRPCSchema).String(); g != want || Real(s).String() != want {
				w.Fail("schema", "%d %s: the template got another schema:\n%s", n, kind, diff(want, g))
			}
			if again, _ := s.SchemaHash(); got.SchemaHash != hash || again != hash {
				w.Fail("hash", "%d %s: hash %s, expected %s", n, kind, got.SchemaHash, hash)
			}
			out, err := gen.Generate(s, "json", &gen.Config{})
			if err != nil || out.Code != text {
				w.Fail("json", "%d %s: target json differs from the schema's JSON: %v\n%s", n, kind, err, diff(text, out.Code))
			}
			w.State(hash)
		},
	}
}

// p23Failures: every way for templates to fail is an error.
func p23Failures() *engine.Family {
	type failing struct {
		name  string
		files map[string]string
		ok    bool
	}
	main := func(s string) map[string]string {
		return map[string]string{"main.go.tmpl": `{{define "main"}}` + s + `{{end}}`}
	}
	cases := []failing{
		{"nothing wrong", main(`x`), true},
		{"no files", map[string]string{"readme": "x"}, false},
		{"no main", map[string]string{"a.go.tmpl": `{{define "other"}}x{{end}}`}, false},
		{"empty file", map[string]string{"a.go.tmpl": ``}, false},
		{"syntax", main(`{{if}}`), false},
		{"unclosed", map[string]string{"a.go.tmpl": `{{define "main"}}x`}, false},
		{"second file wrong", map[string]string{"a.go.tmpl": `{{define "main"}}x{{end}}`, "b.go.tmpl": `{{`}, false},
		{"unknown function", main(`{{nofunc 1}}`), false},
		{"unknown variable", main(`x{{.Nope}}`), false},
		{"unknown template", main(`x{{template "nope"}}`), false},
		{"fail", main(`x{{fail "because"}}`), false},
		{"missing key", main(`x{{get .Opts "nope"}}`), false},
		{"panic in a helper", main(`x{{ternary "maybe" 1 2}}`), false},
		{"odd dict", main(`x{{dict "a"}}`), false},
		{"first of nothing", main(`x{{first (array)}}`), false},
		{"list element of a name", main(`x{{listElemType "St"}}`), false},
		{"map key of a name", main(`x{{mapKeyType "St"}}`), false},
		{"map value of a name", main(`x{{mapValueType "St"}}`), false},
		{"bad version", main(`x{{minVersion "x" "v1"}}`), false},
		{"bad index", main(`x{{index .Types 99}}`), false},
		{"bad argument", main(`x{{toLower 1}}`), false},
		{"nil type", main(`x{{toLower .Opts.nope}}`), false},
		{"late", main(`{{range .Types}}{{.Name}}{{end}}{{range .Services}}{{fail .Name}}{{end}}`), false},
		{"not a go.tmpl", map[string]string{"main.tmpl": `{{define "main"}}x{{end}}`}, false},
		{"main in the second file", map[string]string{"a.go.tmpl": `{{define "a"}}A{{end}}`, "z.go.tmpl": `{{define "main"}}{{template "a"}}{{end}}`}, true},
		{"file names do not matter", map[string]string{"main": `{{define "main"}}bad{{end}}`, "x.go.tmpl": `{{define "main"}}good{{end}}`}, true},
	}
	wants := map[string]string{"nothing wrong": "x", "main in the second file": "A", "file names do not matter": "good"}
	return &engine.Family{
		Name: "failures", Bound: fmt.Sprintf("%d template sets that fail while being found, read, parsed or executed, or not at all, absolute and relative, and missing directories", len(cases)),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(len(cases) + 1)
			rel := x.Choose(3)
			if !w.Mine(func() string {
				if k < len(cases) {
					return fmt.Sprint(cases[k].name, rel)
				}
				return fmt.Sprint("missing directory", rel)
			}) {
				return
			}
			dir := filepath.Join(w.Dir, "nowhere")
			c := failing{name: "missing directory"}
			if k < len(cases) {
				c = cases[k]
				dir = tmplDir(w, c.files)
			}
			target := dir
			wd := filepath.Dir(dir)
			switch rel {
			case 1:
				target = "./" + filepath.Base(dir)
			case 2:
				target, wd = "../"+filepath.Base(dir), filepath.Join(wd, "sub")
				if err := os.MkdirAll(wd, 0o755); err != nil {
					panic(err)
				}
			}
			if err := os.Chdir(wd); err != nil {
				panic(err)
			}
			defer os.Chdir(w.Dir)
			s, err := parseText(NewDoc(append(support(), menu(11, 1))...).RIDL())
			if err != nil {
				return
			}
			want := Real(s)
			want.Base = "/rpc/"
			out, err := gen.Generate(s, target, &gen.Config{})
			if (err == nil) != c.ok {
				w.Fail("error", "%s: error %v, expected success: %v", c.name, err, c.ok)
			} else if c.ok && out.Code != wants[c.name] {
				w.Fail("code", "%s: got %q, expected %q", c.name, out.Code, wants[c.name])
			}
			if got := Real(s).String(); got != want.String() {
				w.Fail("schema-changed", "%s: %s", c.name, diff(want.String(), got))
			}
			w.State(c.name)
		},
	}
}

// p23Format: formatting is for Go only, and changes the layout only.
func p23Format(w *engine.W) *engine.Family {
	targets := []string{"golang", "github.com/webrpc/gen-golang", "DIR/gen-golang", "DIR/gen-golang@v3", "DIR/golang-gen", "DIR/gen-go", "typescript"}
	bodies := []string{
		"package  x\n\nvar a   =  1\n", "package x\nimport \"fmt\"\nfunc f() {fmt.Println( 1 )}\n", "package x\nfunc f( {\n", "not go at all", "",
		"package x\n// a comment\ntype T struct {\n  A int `json:\"a\"`\n BB string\n}\n",
	}
	return &engine.Family{
		Name: "format", Bound: fmt.Sprintf("Go and other sources, right and wrong (%d), with and without formatting, from targets that are Go generators or not (%d)", len(bodies), len(targets)),
		Run: func(x *engine.X, w *engine.W) {
			t := targets[x.Choose(len(targets))]
			body := bodies[0]
			dir := strings.HasPrefix(t, "DIR/")
			if dir {
				body = bodies[x.Choose(len(bodies))]
			}
			fm := x.Bool()
			if !w.Mine(func() string { return fmt.Sprintf("%s format %v: %q", t, fm, body) }) {
				return
			}
			isGo := strings.HasSuffix(strings.TrimSuffix(t, "@v3"), "golang")
			target := t
			if dir {
				target = filepath.Join(w.Dir, "fmt", t[4:])
				if err := os.MkdirAll(target, 0o755); err != nil {
					panic(err)
				}
				if err := os.WriteFile(filepath.Join(target, "m.go.tmpl"), []byte(`{{define "main"}}`+body+`{{end}}`), 0o644); err != nil {
					panic(err)
				}
			}
			os.Args = []string{"webrpc-gen"}
			run := func(format bool) (*gen.GenOutput, bool) {
				s, err := parseText(rich().RIDL())
				if err != nil {
					return nil, false
				}
				out, err := gen.Generate(s, target, &gen.Config{Format: format, TemplateOptions: map[string]any{"pkg": "proto"}})
				if err != nil {
					w.Fail("error", "%s: %v", t, err)
					return nil, false
				}
				return out, true
			}
			raw, ok := run(false)
			if !ok {
				return
			}
			if dir && raw.Code != body {
				w.Fail("raw", "got %q, expected %q", raw.Code, body)
			}
			if raw.FormatErr != nil {
				w.Fail("raw", "format error %v without formatting", raw.FormatErr)
			}
			if !fm {
				return
			}
			out, ok := run(true)
			if !ok {
				return
			}
			pretty, err := format.Source([]byte(raw.Code))
			switch {
			case !isGo:
				if out.Code != raw.Code || out.FormatErr != nil {
					w.Fail("not-go", "%s: code of another language was formatted: %q, %v", t, out.Code, out.FormatErr)
				}
			case err != nil || strings.TrimSpace(raw.Code) == "" || !strings.Contains(raw.Code, "package"):
				if out.Code != raw.Code || out.FormatErr == nil {
					w.Fail("bad-go", "wrong Go code %q: got %q and format error %v", raw.Code, out.Code, out.FormatErr)
				}
			default:
				if out.Code != string(pretty) || out.FormatErr != nil {
					w.Fail("go", "Go code formatted to %q (%v), expected %q", out.Code, out.FormatErr, pretty)
				}
			}
			w.State(out.Code)
		},
	}
}

// p23Base: the default base path.
func p23Base() *engine.Family {
	bases := []string{"", "/rpc/", "/rpc", "/", "/v1/", "x"}
	targets := []string{"json", "debug", "typescript", "LOCAL"}
	return &engine.Family{
		Name: "base path", Bound: fmt.Sprintf("schemas with base paths %q, with 0 to 2 services, with every kind of target", bases),
		Run: func(x *engine.X, w *engine.W) {
			b := bases[x.Choose(len(bases))]
			svcs := x.Choose(3)
			name := targets[x.Choose(len(targets))]
			if !w.Mine(func() string { return fmt.Sprintf("%q with %d services, %s", b, svcs, name) }) {
				return
			}
			s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "n", SchemaVersion: "v1", BasePath: b}
			for i := 0; i < svcs; i++ {
				s.Services = append(s.Services, &schema.Service{Name: fmt.Sprintf("Sv%d", i)})
			}
			want := *s
			if b == "" && svcs > 0 {
				want.BasePath = "/rpc/"
			}
			target, opts := p23Target(w, name)
			if _, err := gen.Generate(s, target, &gen.Config{TemplateOptions: opts}); err != nil {
				w.Fail("error", "%v", err)
			}
			if !reflect.DeepEqual(*s, want) {
				w.Fail("schema", "schema is %+v, expected %+v", *s, want)
			}
			w.State(want.BasePath)
		},
	}
}

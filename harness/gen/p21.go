package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P21",
		Rule: "An execution runs the real webrpc-gen binary once in a scratch directory with one list of arguments and environment and compares exit status, standard output, standard error and every file of the directory with what the arguments ask for; the expected code comes from the parser, the filters and gen.Generate called in order by the harness. A state is a distinct expected result.",
		Assumptions: []string{
			"templates that end the run with exit are outside the statement (exit is checked separately); help of a target given after -help is not looked at",
			"string flags are written -name=value (the flag package also takes the next argument as a value)",
			"output files can be written to the end once opened, unless they are full from the start",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p21Grid(w), p21Filters(w), p21Version(), p21Options(w), p21PairOptions(w), p21Flags(w), p21Templates(), p21Format(), p21Unwritable(), p21Remote(), p21Annotations(w), p21Many(w), p21Content(w), p21Help(w), p21Size()}
		},
	})
}

var p21Schemas = map[string]string{
	"good.ridl": `webrpc = v1
name = api
version = v1.2.3
basepath = /rpc

struct X
  - n: int
struct Y
  - x: X
struct Z
  - s: string

service A
  @internal
  - One(x: X)
  @acl:admin
  - Two() => (y: Y)
  - Three()

service B
  @internal @acl:user
  - Four(z: Z)
`,
	"nobase.ridl":  "webrpc = v1\nname = n\nversion = v1\nservice S\n  - M()\n",
	"types.ridl":   "webrpc = v1\nname = t\nstruct S\n  - x: int\n",
	"syntax.ridl":  "webrpc = v1\nstruct\n",
	"invalid.ridl": "webrpc = v1\nname = n\nversion = v1\nstruct S\n  - x: Nope\n",
	"good.json":    `{"webrpc":"v1","name":"j","version":"v9","basepath":"/j","types":[{"kind":"struct","name":"J","fields":[{"name":"a","type":"string"}]}],"services":[{"name":"A","methods":[{"name":"M","inputs":[],"outputs":[]}]}]}`,
	"bad.json":     `{"webrpc":"v1","services":[{}]}`,
	"good.yaml":    "webrpc: v1\n",
}

var p21Tmpl = map[string]map[string]string{
	"tmpl":   {"m.go.tmpl": `{{define "main"}}{{.WebrpcHeader}} {{.WebrpcGenCommand}} {{.WebrpcTarget}} {{.BasePath}}{{range .Types}} {{.Name}}{{end}}{{range .Services}} {{.Name}}:{{range .Methods}}{{.Name}},{{end}}{{end}}{{range $k, $v := .Opts}}[{{$k}}={{printf "%q" $v}}]{{end}}{{end}}`},
	"fails":  {"m.go.tmpl": `{{define "main"}}text{{fail "on purpose"}}{{end}}`},
	"broken": {"m.go.tmpl": `{{define "main"}}`},
	"empty":  {"readme": ``},
}

// p21World is the directory that the binary runs in.
func p21World(w *engine.W) string {
	root := filepath.Join(w.Dir, "cli")
	if _, err := os.Stat(root); err == nil {
		return root
	}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.MkdirAll(filepath.Join(root, "dir.ridl"), 0o755))
	must(os.MkdirAll(filepath.Join(root, "tmp"), 0o755))
	must(os.MkdirAll(filepath.Join(root, "home"), 0o755))
	for n, t := range p21Schemas {
		must(os.WriteFile(filepath.Join(root, n), []byte(t), 0o644))
	}
	for d, files := range p21Tmpl {
		must(os.MkdirAll(filepath.Join(root, d), 0o755))
		for n, t := range files {
			must(os.WriteFile(filepath.Join(root, d, n), []byte(t), 0o644))
		}
	}
	return root
}

func p21Dirs(w *engine.W, name, body string) {
	dir := filepath.Join(p21World(w), name)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "m.go.tmpl"), []byte(`{{define "main"}}`+body+`{{end}}`), 0o644); err != nil {
		panic(err)
	}
}

type ran struct {
	code        int
	out, errOut string
	files       map[string]string
}

// p21Run runs the binary; the directory out starts with the files given.
func p21Run(w *engine.W, args, env []string, files map[string]string) ran {
	return p21RunTo(w, nil, args, env, files)
}

// p21RunTo has standard output going to a file, unless that is nil.
// p21Limit limits the size of files webrpc-gen may write, in units of 512 or 1024
// bytes; 0: no limit.
var p21Limit int

func p21RunTo(w *engine.W, stdout *os.File, args, env []string, files map[string]string) ran {
	root := p21World(w)
	out := filepath.Join(root, "out")
	if err := os.RemoveAll(out); err != nil {
		panic(err)
	}
	if err := os.MkdirAll(filepath.Join(out, "dir"), 0o755); err != nil {
		panic(err)
	}
	for n, t := range files {
		if err := os.WriteFile(filepath.Join(out, n), []byte(t), 0o644); err != nil {
			panic(err)
		}
	}
	bin := os.Getenv("VERIF_BIN")
	if bin == "" {
		bin = "/tmp"
	}
	cmd := exec.Command(filepath.Join(bin, "webrpc-gen"), args...)
	if p21Limit > 0 {
		sh := []string{"-c", fmt.Sprintf(`trap '' XFSZ; ulimit -f %d; exec "$0" "$@"`, p21Limit), filepath.Join(bin, "webrpc-gen")}
		cmd = exec.Command("sh", append(sh, args...)...)
	}
	cmd.Dir = root
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + filepath.Join(root, "home"), "GOCACHE=" + os.Getenv("GOCACHE"), "GOMODCACHE=" + os.Getenv("GOMODCACHE"), "GOTELEMETRY=off", "GOTOOLCHAIN=local", "TMPDIR=" + filepath.Join(root, "tmp"), "GOFLAGS=-mod=mod", "GOPROXY=off", "PWD=" + root}, env...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if stdout != nil {
		cmd.Stdout = stdout
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		w.Fail("hangs", "webrpc-gen %q runs for 30 s", args)
	}
	r := ran{code: cmd.ProcessState.ExitCode(), out: so.String(), errOut: se.String(), files: map[string]string{}}
	_ = filepath.Walk(out, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(out, p)
			r.files[rel] = string(b)
		}
		return nil
	})
	return r
}

// wish is what a command line asks for.
type wish struct {
	schema, target      string
	service, match, ign string
	shake               bool
	version             *string
	format              bool
	opts                map[string]any
	out                 string // "" for standard output
	silent              bool
	bad                 string // why the command line is wrong
}

func annotations(s string) (map[string]string, bool) {
	m := map[string]string{}
	for _, a := range strings.Split(s, ",") {
		i := strings.IndexByte(a, '@')
		if i < 0 {
			return nil, false
		}
		n, v, _ := strings.Cut(a[i+1:], ":")
		m[n] = v
	}
	return m, true
}

// code is the code that a command line asks for.
func (k *wish) code(w *engine.W, args []string) (code string, formatErr bool, err error) {
	root := p21World(w)
	if k.bad != "" {
		return "", false, fmt.Errorf("%s", k.bad)
	}
	if e := os.Chdir(root); e != nil {
		panic(e)
	}
	defer os.Chdir(w.Dir)
	s, err := webrpc.ParseSchemaFile(k.schema)
	if err != nil {
		return "", false, err
	}
	if k.target == "" {
		return "", false, fmt.Errorf("no target")
	}
	if k.version != nil {
		s.SchemaVersion = *k.version
	}
	if s.BasePath == "" && len(s.Services) > 0 {
		s.BasePath = "/rpc/"
	}
	if k.service != "" {
		names := strings.Split(k.service, ",")
		if k.shake {
			s = schema.MethodTreeShake(s, names)
		}
		s = schema.MatchServices(s, names)
	}
	if k.match != "" && k.ign != "" {
		return "", false, fmt.Errorf("both match and ignore")
	}
	if k.match != "" {
		m, ok := annotations(k.match)
		if !ok {
			return "", false, fmt.Errorf("wrong annotation")
		}
		s = schema.MatchMethodsWithAnnotations(s, m)
	}
	if k.ign != "" {
		m, ok := annotations(k.ign)
		if !ok {
			return "", false, fmt.Errorf("wrong annotation")
		}
		s = schema.IgnoreMethodsWithAnnotations(s, m)
	}
	os.Args = append([]string{"webrpc-gen"}, args...)
	out, err := gen.Generate(s, k.target, &gen.Config{Format: k.format, TemplateOptions: k.opts})
	if err != nil {
		return "", false, err
	}
	return out.Code, out.FormatErr != nil, nil
}

// p21Check runs the command and compares with the wish.
func p21Check(w *engine.W, k *wish, args, env []string, files map[string]string) {
	if files == nil {
		files = map[string]string{"old": "OLD"}
	}
	code, badFormat, err := k.code(w, args)
	r := p21Run(w, args, env, files)
	want := map[string]string{}
	for n, t := range files {
		want[n] = t
	}
	// where the file goes
	if err == nil && k.out != "" {
		rel := strings.TrimPrefix(filepath.Clean(k.out), filepath.Join(p21World(w), "out")+"/")
		rel = strings.TrimPrefix(rel, "out/")
		if rel == "dir" || strings.HasPrefix(rel, "old/") {
			err = fmt.Errorf("the output file cannot be written")
		} else {
			want[rel] = code
		}
	}
	say := func(sig, format string, a ...any) {
		w.Fail(sig, "webrpc-gen %q (env %q): %s\nexit %d\nstdout: %s\nstderr: %s", args, env, fmt.Sprintf(format, a...), r.code, clip(r.out), clip(r.errOut))
	}
	w.Step(1)
	w.State(fmt.Sprint(code, err != nil, badFormat, k.out))
	switch {
	case err != nil && r.code == 0:
		say("accepted", "succeeds, expected failure: %v", err)
		return
	case err == nil && !badFormat && r.code != 0:
		say("refused", "fails")
		return
	case badFormat && r.code == 0:
		say("format", "succeeds although the code cannot be formatted")
		return
	case r.code != 0 && strings.TrimSpace(r.errOut) == "":
		say("silent", "fails without a message on standard error")
	case strings.Contains(r.errOut, "panic:") || strings.Contains(r.errOut, "goroutine "):
		say("panic", "panics")
	}
	if err == nil && k.out == "" && r.out != code+"\n" {
		say("stdout", "standard output differs from the code:\n%s", diff(code+"\n", r.out))
	}
	if err == nil && k.out != "" && k.silent && r.out != "" {
		say("report", "-silent does not silence the summary")
	}
	if got, exp := show(anyMap(r.files)), show(anyMap(want)); got != exp {
		say("files", "files of the output directory: %s\nexpected: %s", clip(got), clip(exp))
	}
}

func clip(s string) string {
	if len(s) > 500 {
		return s[:500] + "..."
	}
	return s
}

func anyMap(m map[string]string) map[string]any {
	out := map[string]any{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func p21Grid(w *engine.W) *engine.Family {
	schemas := append(keys(p21Schemas), "dir.ridl", "missing.ridl", "", "./good.ridl", "ABS/good.ridl", "tmpl/../good.ridl")
	targets := []string{"json", "debug", "./tmpl", "ABS/tmpl", "./fails", "./broken", "./empty", "./missing", "", "nope", "typescript@v0.0.1", "typescript"}
	outs := []string{"", "stdout", "out/new", "out/old", "out/long", "out/a/b/new", "out/dir", "out/old/x", "ABS/out/new", "./out/dir/../old"}
	return &engine.Family{
		Name: "schemas, targets, outputs", Bound: fmt.Sprintf("all combinations of %d schema files, %d targets and %d output files, with and without summary", len(schemas), len(targets), len(outs)),
		Run: func(x *engine.X, w *engine.W) {
			k := &wish{format: true, opts: map[string]any{}}
			k.schema = schemas[x.Choose(len(schemas))]
			k.target = targets[x.Choose(len(targets))]
			k.out = outs[x.Choose(len(outs))]
			k.silent = x.Bool()
			if !w.Mine(func() string {
				return fmt.Sprintf("-schema=%s -target=%s -out=%s -silent=%v", k.schema, k.target, k.out, k.silent)
			}) {
				return
			}
			root := p21World(w)
			var args []string
			for _, f := range []struct {
				name string
				v    *string
			}{{"schema", &k.schema}, {"target", &k.target}, {"out", &k.out}} {
				*f.v = strings.Replace(*f.v, "ABS", root, 1)
				if *f.v != "" {
					args = append(args, "-"+f.name+"="+*f.v)
				}
			}
			if k.silent {
				args = append(args, "-silent")
			}
			if k.out == "stdout" {
				k.out = ""
			}
			if k.schema == "" {
				k.bad = "no schema"
			}
			files := map[string]string{"old": "OLD"}
			if k.out == "out/long" {
				files["long"] = strings.Repeat("what was there before\n", 1<<15)
			}
			p21Check(w, k, args, nil, files)
		},
	}
}

var p21Versions = []string{"none", "flag", "env", "both", "emptyflag", "literal", "literal+env", "emptyenv"}

// setVersion sets the version of the schema in one of the ways above, with the values for flag and environment.
func (k *wish) setVersion(how, flag, env string) (args, environ []string) {
	switch how {
	case "flag":
		args = []string{"-schemaVersion=" + flag}
		k.version = &flag
	case "env":
		environ = []string{"WEBRPC_SCHEMA_VERSION=" + env}
		k.version = &env
	case "both":
		args = []string{"-schemaVersion=" + flag}
		environ = []string{"WEBRPC_SCHEMA_VERSION=" + env}
		k.version = &flag
	case "emptyenv":
		environ = []string{"WEBRPC_SCHEMA_VERSION="}
	case "emptyflag":
		args = []string{"-schemaVersion="}
		k.version = new(string)
	case "literal":
		args = []string{"-schemaVersion=$WEBRPC_SCHEMA_VERSION"}
	case "literal+env":
		args = []string{"-schemaVersion=$WEBRPC_SCHEMA_VERSION"}
		environ = []string{"WEBRPC_SCHEMA_VERSION=" + env}
		k.version = &env
	}
	return args, environ
}

// p21Version: every way to set the version, with every schema and unusual values.
func p21Version() *engine.Family {
	schemas := keys(p21Schemas)
	values := []string{"v7", "7", " ", "v1 ", "é", "v1=v2", "-v1", "a b", "$X", "@", "v1.2.3"}
	targets := []string{"json", "./tmpl", "debug"}
	return &engine.Family{
		Name: "versions", Bound: fmt.Sprintf("all combinations of %d schema files, %d ways to set the version, %d values and %d targets", len(schemas), len(p21Versions), len(values), len(targets)),
		Run: func(x *engine.X, w *engine.W) {
			k := &wish{format: true, opts: map[string]any{}}
			k.schema = schemas[x.Choose(len(schemas))]
			k.target = targets[x.Choose(len(targets))]
			how := p21Versions[x.Choose(len(p21Versions))]
			v := values[x.Choose(len(values))]
			more, env := k.setVersion(how, v, v)
			if how == "both" {
				env = []string{"WEBRPC_SCHEMA_VERSION=other"}
			}
			if v != values[0] && (how == "none" || strings.HasPrefix(how, "empty") || how == "literal") {
				return
			}
			args := append([]string{"-schema=" + k.schema, "-target=" + k.target}, more...)
			if !w.Mine(func() string { return fmt.Sprintf("%q %q", args, env) }) {
				return
			}
			p21Check(w, k, args, env, nil)
		},
	}
}

func p21Filters(w *engine.W) *engine.Family {
	services := []string{"", "A", "B", "A,B", "B,A", "Nope", "A,Nope"}
	anns := [][2]string{{"", ""}, {"@internal", ""}, {"", "@internal"}, {"@acl:admin", ""}, {"", "@acl:admin"}, {"@acl", ""}, {"", "@internal,@acl:admin"}, {"@internal,@acl:user", ""},
		{"internal", ""}, {"", "@internal,acl"}, {"@internal", "@acl:admin"}, {"@nope", ""}, {"", "acl"}}
	versions := p21Versions
	targets := []string{"json", "./tmpl"}
	return &engine.Family{
		Name: "filters", Bound: fmt.Sprintf("all combinations of %d -service values, -methodTreeShake, %d -match and -ignore values, %d ways to set the version and %d targets", len(services), len(anns), len(versions), len(targets)),
		Run: func(x *engine.X, w *engine.W) {
			k := &wish{schema: "good.ridl", format: true, opts: map[string]any{}}
			k.service = services[x.Choose(len(services))]
			k.shake = x.Bool()
			a := anns[x.Choose(len(anns))]
			k.match, k.ign = a[0], a[1]
			v := versions[x.Choose(len(versions))]
			k.target = targets[x.Choose(len(targets))]
			args := []string{"-schema=" + k.schema, "-target=" + k.target}
			more, env := k.setVersion(v, "v7", "v8")
			args = append(args, more...)
			for _, f := range [][2]string{{"service", k.service}, {"match", k.match}, {"ignore", k.ign}} {
				if f[1] != "" {
					args = append(args, "-"+f[0]+"="+f[1])
				}
			}
			if k.shake {
				args = append(args, "-methodTreeShake")
			}
			if !w.Mine(func() string { return fmt.Sprintf("%q %q", args, env) }) {
				return
			}
			p21Check(w, k, args, env, nil)
		},
	}
}

var p21Known = map[string]bool{"version": true, "schema": true, "schemaVersion": true, "target": true, "out": true, "fmt": true, "refreshCache": true, "silent": true, "service": true, "methodTreeShake": true, "ignore": true, "match": true}

// option reads one argument; ok when it has the form of an option.
func option(arg string) (name, value string, ok bool) {
	if !strings.HasPrefix(arg, "-") {
		return "", "", false
	}
	s := arg
	for strings.HasPrefix(s, "-") {
		s = s[1:]
	}
	for i := range s {
		if s[i] == '=' {
			return s[:i], s[i+1:], i > 0
		}
	}
	return s, "", s != ""
}

func p21WithOptions(w *engine.W, opts []string, at int, target string) {
	k := &wish{schema: "good.ridl", target: target, format: true, opts: map[string]any{}, out: "out/new", silent: true}
	for _, o := range opts {
		n, v, ok := option(o)
		if !ok {
			k.bad = "wrong option"
			continue
		}
		k.opts[n] = v
	}
	flags := []string{"-schema=good.ridl", "-target=" + target, "-out=out/new", "-silent"}
	args := append(append(append([]string{}, flags[:at]...), opts...), flags[at:]...)
	if !w.Mine(func() string { return fmt.Sprintf("%q", args) }) {
		return
	}
	p21Check(w, k, args, nil, nil)
}

func p21Options(w *engine.W) *engine.Family {
	dashes := []string{"", "-", "--", "---"}
	names := []string{"", "a", "a-b", "a-", "a.b", "schema1", "Schema", "é", "x y", "outs", "fmt2", "-", "s", "scheme"}
	values := []string{"", "=", "=v", "==", "=a=b", "=-x", "= ", "=\"q\"", "={{.}}", "=a\nb", "=$HOME", "='", "=%d", "=true", "=\\n"}
	return &engine.Family{
		Name: "option", Bound: fmt.Sprintf("every template option of %d dashes, %d names and %d values, before, between and after the flags", len(dashes), len(names), len(values)),
		Run: func(x *engine.X, w *engine.W) {
			o := dashes[x.Choose(len(dashes))] + names[x.Choose(len(names))] + values[x.Choose(len(values))]
			p21WithOptions(w, []string{o}, []int{0, 2, 4}[x.Choose(3)], "./tmpl")
		},
	}
}

func p21PairOptions(w *engine.W) *engine.Family {
	names := engine.Pick(w, []string{"-a", "--a", "-b", "-ab"}, []string{"-a", "--a", "-b", "-ab", "-a.b", "---c"})
	values := engine.Pick(w, []string{"", "=", "=v", "=a=b", "=b"}, []string{"", "=", "=v", "=a=b", "=b", "=-b", "= b"})
	return &engine.Family{
		Name: "options", Bound: fmt.Sprintf("all pairs of template options of %d names and %d values, next to each other and around the flags", len(names), len(values)),
		Run: func(x *engine.X, w *engine.W) {
			pick := func() string { return names[x.Choose(len(names))] + values[x.Choose(len(values))] }
			p21WithOptions(w, []string{pick(), pick()}, []int{0, 4}[x.Choose(2)], "./tmpl")
		},
	}
}

// p21Flags: order, spelling and repetition of the flags.
func p21Flags(w *engine.W) *engine.Family {
	type fl struct {
		arg string
		set func(k *wish)
		bad bool
	}
	menu := []fl{
		{"-schema=good.ridl", func(k *wish) { k.schema = "good.ridl" }, false},
		{"--schema=types.ridl", func(k *wish) { k.schema = "types.ridl" }, false},
		{"-schema=syntax.ridl", func(k *wish) { k.schema = "syntax.ridl" }, false},
		{"-target=./tmpl", func(k *wish) { k.target = "./tmpl" }, false},
		{"--target=json", func(k *wish) { k.target = "json" }, false},
		{"-out=out/new", func(k *wish) { k.out = "out/new" }, false},
		{"-out=", func(k *wish) { k.out = "" }, false},
		{"-silent", func(k *wish) { k.silent = true }, false},
		{"-silent=false", func(k *wish) { k.silent = false }, false},
		{"-silent=maybe", nil, true},
		{"---target=json", nil, true},
		{"-service=A", func(k *wish) { k.service = "A" }, false},
		{"-methodTreeShake=1", func(k *wish) { k.shake = true }, false},
		{"-methodTreeShake=f", func(k *wish) { k.shake = false }, false},
		{"-match=@internal", func(k *wish) { k.match = "@internal" }, false},
		{"-ignore=@internal", func(k *wish) { k.ign = "@internal" }, false},
		{"-ignore=", func(k *wish) { k.ign = "" }, false},
		{"-fmt=false", func(k *wish) { k.format = false }, false},
		{"-fmt=x", nil, true},
		{"-refreshCache", func(k *wish) {}, false},
		{"good.ridl", nil, true},
		{"-", nil, true},
		{"--", nil, true},
		{"-=x", nil, true},
		{"-opt=1", func(k *wish) { k.opts["opt"] = "1" }, false},
	}
	if !w.Thorough() {
		var few []fl
		for _, f := range menu {
			switch f.arg {
			case "-out=", "-silent=maybe", "-methodTreeShake=f", "-ignore=@internal", "-ignore=", "-fmt=x", "-refreshCache", "-", "-=x", "-schema=syntax.ridl", "-silent=false":
			default:
				few = append(few, f)
			}
		}
		menu = few
	}
	return &engine.Family{
		Name: "flags", Bound: fmt.Sprintf("all sequences of three flags out of %d, after and before the required ones", len(menu)),
		Run: func(x *engine.X, w *engine.W) {
			before := x.Bool()
			k := &wish{schema: "", target: "", format: true, opts: map[string]any{}}
			var args []string
			add := func(f fl) {
				args = append(args, f.arg)
				if f.bad {
					k.bad = "wrong flag " + f.arg
				} else {
					f.set(k)
				}
			}
			n := 3
			if before {
				add(fl{"-schema=good.ridl", func(k *wish) { k.schema = "good.ridl" }, false})
				add(fl{"-target=./tmpl", func(k *wish) { k.target = "./tmpl" }, false})
			}
			for i := 0; i < n; i++ {
				add(menu[x.Choose(len(menu))])
			}
			if !w.Mine(func() string { return fmt.Sprintf("%q", args) }) {
				return
			}
			if k.schema == "" {
				k.bad = "no schema"
			}
			p21Check(w, k, args, nil, nil)
		},
	}
}

// p21Templates: exit and the functions that write to standard error.
func p21Templates() *engine.Family {
	codes := []int{0, 1, 2, 3, 77, 255}
	outs := []string{"", "out/new", "out/old"}
	return &engine.Family{
		Name: "exit and stderr", Bound: "templates that exit with every one of 6 statuses, and that print to standard error, with every kind of output",
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(len(codes) + 2)
			out := outs[x.Choose(len(outs))]
			if !w.Mine(func() string { return fmt.Sprint(k, out) }) {
				return
			}
			args := []string{"-schema=good.ridl", "-target=./t-exit", "-silent"}
			if out != "" {
				args = append(args, "-out="+out)
			}
			if k >= len(codes) {
				wantErr := "one 2-x{3}"
				body := `code{{stderrPrint "one " 2}}{{stderrPrintf "-%s{%d}" "x" 3}}`
				if k > len(codes) {
					body += `{{fail "late"}}`
				}
				p21Dirs(w, "t-exit", body)
				r := p21Run(w, args, nil, map[string]string{"old": "OLD"})
				switch {
				case k == len(codes) && (r.code != 0 || r.errOut != wantErr):
					w.Fail("stderr", "exit %d, standard error %q, expected %q", r.code, r.errOut, wantErr)
				case k == len(codes) && out == "" && r.out != "code\n" || k == len(codes) && out != "" && r.files[strings.TrimPrefix(out, "out/")] != "code":
					w.Fail("stderr", "code %q, files %v", r.out, r.files)
				case k > len(codes) && (r.code == 0 || !strings.HasPrefix(r.errOut, wantErr) || r.out != "" || r.files["old"] != "OLD" || len(r.files) != 1):
					w.Fail("stderr", "exit %d, standard error %q, output %q, files %v", r.code, r.errOut, r.out, r.files)
				}
				w.State(r.errOut)
				return
			}
			p21Dirs(w, "t-exit", `some text{{exit `+strconv.Itoa(codes[k])+`}}more`)
			r := p21Run(w, args, nil, map[string]string{"old": "OLD"})
			if r.code != codes[k] || r.out != "" || r.files["old"] != "OLD" || len(r.files) != 1 {
				w.Fail("exit", "exit %d: got status %d, output %q, files %v", codes[k], r.code, r.out, r.files)
			}
			w.State(fmt.Sprint(r.code))
		},
	}
}

// p21Format: Go code that can and cannot be formatted.
func p21Format() *engine.Family {
	bodies := []string{"package x\nfunc  f()  {}\n", "package x\nfunc f( {\n", "no go"}
	outs := []string{"", "out/new", "out/old"}
	dirs := []string{"./gen-golang", "./gen-other"}
	return &engine.Family{
		Name: "format", Bound: "Go code right and wrong, with -fmt set and not, -silent set and not, every kind of output, from Go and other generators",
		Run: func(x *engine.X, w *engine.W) {
			body := bodies[x.Choose(len(bodies))]
			k := &wish{schema: "good.ridl", opts: map[string]any{}, format: true}
			k.target = dirs[x.Choose(2)]
			k.out = outs[x.Choose(3)]
			args := []string{"-schema=good.ridl", "-target=" + k.target}
			switch x.Choose(3) {
			case 1:
				args = append(args, "-fmt=true")
			case 2:
				args = append(args, "-fmt=false")
				k.format = false
			}
			if k.silent = x.Bool(); k.silent {
				args = append(args, "-silent")
			}
			if k.out != "" {
				args = append(args, "-out="+k.out)
			}
			if !w.Mine(func() string { return fmt.Sprintf("%q: %q", args, body) }) {
				return
			}
			p21Dirs(w, "gen-golang", body)
			p21Dirs(w, "gen-other", body)
			p21Check(w, k, args, nil, nil)
		},
	}
}

// p21Unwritable: outputs that cannot be written.
func p21Unwritable() *engine.Family {
	bodies := []string{"", "x", "package x\nfunc  f()  {}\n", "package x\nfunc f( {\n", strings.Repeat("0123456789\n", 400), strings.Repeat("0123456789\n", 20000)}
	dirs := []string{"./gen-golang", "./gen-other", "json", "debug"}
	return &engine.Family{
		Name: "unwritable", Bound: fmt.Sprintf("standard output that is full or only readable, and a full output file, with %d bodies of 2 targets and 2 built-in targets, -silent or not", len(bodies)),
		Run: func(x *engine.X, w *engine.W) {
			d := x.Choose(len(dirs))
			b := 0
			if d < 2 {
				b = x.Choose(len(bodies))
			}
			how := x.Choose(3)
			silent := x.Bool()
			if !w.Mine(func() string { return fmt.Sprint(dirs[d], b, how, silent) }) {
				return
			}
			w.Step(1)
			p21Dirs(w, "gen-golang", bodies[b])
			p21Dirs(w, "gen-other", bodies[b])
			args := []string{"-schema=good.ridl", "-target=" + dirs[d]}
			if silent {
				args = append(args, "-silent")
			}
			link := filepath.Join(p21World(w), "full")
			if err := os.RemoveAll(link); err != nil {
				panic(err)
			}
			var stdout *os.File
			var err error
			switch how {
			case 0:
				stdout, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
			case 1:
				stdout, err = os.Open("/dev/zero")
			case 2:
				args = append(args, "-out=full")
				err = os.Symlink("/dev/full", link)
			}
			if err != nil {
				panic(err)
			}
			if stdout != nil {
				defer stdout.Close()
			}
			r := p21RunTo(w, stdout, args, nil, map[string]string{"old": "OLD"})
			w.State(fmt.Sprint(how, r.code))
			if r.code == 0 && how == 2 {
				// nothing to write, or a file was put in the place of the link
				if b == 0 && d == 1 {
					return
				}
				if st, err := os.Lstat(link); err == nil && st.Mode().IsRegular() && st.Size() > 0 {
					return
				}
			}
			switch {
			case r.code == 0:
				w.Fail("accepted", "webrpc-gen %q succeeds although its output cannot be written", args)
			case strings.TrimSpace(r.errOut) == "" || strings.Contains(r.errOut, "goroutine "):
				w.Fail("silent", "webrpc-gen %q fails with exit %d and standard error %q", args, r.code, clip(r.errOut))
			}
		},
	}
}

// p21Remote: targets that are fetched.
func p21Remote() *engine.Family {
	type tg struct{ target, project string }
	targets := []tg{{"plain", "github.com/webrpc/gen-plain"}, {"PLAIN", "github.com/webrpc/gen-plain"}, {"github.com/me/gen-mine", "github.com/me/gen-mine"}, {"github.com/me/gen-mine@v1", "github.com/me/gen-mine@v1"}, {"go", "github.com/webrpc/gen-golang@v0.6.0"},
		{"ts", "github.com/webrpc/gen-typescript@v0.6.0"}, {"js", "github.com/webrpc/gen-javascript@v0.6.0"}, {"golang@v0.1.0", "github.com/webrpc/gen-golang@v0.1.0"}, {"github.com/webrpc/gen-kotlin@v9", "github.com/webrpc/gen-kotlin@v9"}}
	outs := []string{"", "out/new", "out/old"}
	return &engine.Family{
		Name: "remote", Bound: fmt.Sprintf("%d remote targets, published or not, cached or not, with and without -refreshCache, with every kind of output", len(targets)),
		Run: func(x *engine.X, w *engine.W) {
			t := targets[x.Choose(len(targets))]
			published, cached, refresh := x.Bool(), x.Bool(), x.Bool()
			out := outs[x.Choose(3)]
			if !w.Mine(func() string { return fmt.Sprint(t.target, published, cached, refresh, out) }) {
				return
			}
			root := p21World(w)
			hub := filepath.Join(root, "hub")
			dir := filepath.Join(hub, strings.ReplaceAll(t.project, "/", "+"))
			fresh := func() {
				for _, d := range []string{hub, filepath.Join(root, "tmp")} {
					if err := os.RemoveAll(d); err != nil {
						panic(err)
					}
					if err := os.MkdirAll(d, 0o755); err != nil {
						panic(err)
					}
				}
			}
			publish := func(text string) {
				if err := os.MkdirAll(dir, 0o755); err != nil {
					panic(err)
				}
				if err := os.WriteFile(filepath.Join(dir, "m.go.tmpl"), []byte("{{define \"main\"}}package "+text+"\n\n// {{.CodeGen}}\n{{end}}"), 0o644); err != nil {
					panic(err)
				}
			}
			fresh()
			env := []string{"VERIF_GITFS=" + hub}
			args := []string{"-schema=good.ridl", "-target=" + t.target, "-silent"}
			if cached {
				publish("one")
				p21Run(w, args, env, nil)
				if err := os.RemoveAll(dir); err != nil {
					panic(err)
				}
			}
			if published {
				publish("two")
			}
			if refresh {
				args = append(args, "-refreshCache")
			}
			if out != "" {
				args = append(args, "-out="+out)
			}
			r := p21Run(w, args, env, map[string]string{"old": "OLD"})
			name := t.project[strings.LastIndex(t.project, "/")+1:]
			want := ""
			switch {
			case cached && (!refresh || !published):
				want = "package one\n\n// " + name + "\n"
			case published:
				want = "package two\n\n// " + name + "\n"
			}
			files := map[string]any{"old": "OLD"}
			w.State(want)
			if want == "" {
				if r.code == 0 || strings.TrimSpace(r.errOut) == "" || r.out != "" || show(anyMap(r.files)) != show(files) {
					w.Fail("failure", "nothing to fetch: exit %d, output %q, standard error %q, files %v", r.code, r.out, r.errOut, r.files)
				}
				return
			}
			wantOut := want + "\n"
			if out != "" {
				files[strings.TrimPrefix(out, "out/")] = want
				wantOut = ""
			}
			if r.code != 0 || r.out != wantOut || show(anyMap(r.files)) != show(files) {
				w.Fail("success", "exit %d, output %q, standard error %q, files %v, expected %q", r.code, r.out, r.errOut, r.files, want)
			}
		},
	}
}

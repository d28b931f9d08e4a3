package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	engine "verifengine"
)

// p21Values are values of annotations.
var p21Values = []string{"", "x", "x:", ":x", "x:y", "x::", "x@y", "@", "@x", "a:x", "@a:x", " x", "x ", " ", "X", "xx", "é", "x=y", "=", "-x", "x.y", "x/y", "0", "01", "1", "1.0", "\"x\"", "'x'", "x;y", "x|y", "$x", "*", "x*", "true", "none", "null", "a", "x y", "x\ty", "\\", "x\\n", "%s", "https://x/y?z=1#2"}

// p21Annotations: every value asked for with -match and -ignore.
func p21Annotations(w *engine.W) *engine.Family {
	names := []string{"a", "A", "b", "ab", "", "a-b", "a.b", " a", "a ", "é", "*", "a=b"}
	var methods []map[string]any
	add := func(anns ...string) {
		m := map[string]any{}
		for i := 0; i < len(anns); i += 2 {
			m[anns[i]] = map[string]any{"annotationType": anns[i], "value": anns[i+1]}
		}
		methods = append(methods, map[string]any{"name": fmt.Sprintf("M%d", len(methods)), "annotations": m, "inputs": []any{}, "outputs": []any{}})
	}
	add()
	for _, v := range p21Values {
		add("a", v)
	}
	for _, n := range names[1:] {
		if n != "" {
			add(n, "")
			add(n, "x", "b", "x:y")
		}
	}
	add("a", "x", "b", "x")
	add("a", "x", "b", "y")
	add("a", "x:y", "b", "")
	text, err := json.Marshal(map[string]any{"webrpc": "v1", "name": "ann", "version": "v1", "basepath": "/rpc", "types": []any{}, "services": []any{map[string]any{"name": "S", "methods": methods}}})
	if err != nil {
		panic(err)
	}
	two := []string{"@a", "@a:", "@a:x", "@a:x:y", "@b", "@b:x", "@b:x:y", "@b:y", " @b:x", "@A:x", "b:x", "@", ""}
	return &engine.Family{
		Name: "annotations", Bound: fmt.Sprintf("a schema of %d annotated methods with -match and -ignore of each of %d names with each of %d values, and of all pairs of %d entries of different names", len(methods), len(names), len(p21Values), len(two)),
		Run: func(x *engine.X, w *engine.W) {
			k := &wish{schema: "ann.json", target: "./tmpl", format: true, opts: map[string]any{}}
			var ask string
			if x.Bool() {
				ask = "@" + names[x.Choose(len(names))]
				if c := x.Choose(len(p21Values) + 1); c > 0 {
					ask += ":" + p21Values[c-1]
				}
			} else {
				p, q := two[x.Choose(len(two))], two[x.Choose(len(two))]
				name := func(s string) string {
					n, _, _ := strings.Cut(strings.TrimSpace(s), ":")
					return n
				}
				// the same name twice has no agreed meaning
				if name(p) == name(q) {
					return
				}
				ask = p + "," + q
			}
			flag := "match"
			if k.match = ask; x.Bool() {
				flag, k.match, k.ign = "ignore", "", ask
			}
			if !w.Mine(func() string { return fmt.Sprintf("-%s=%q", flag, ask) }) {
				return
			}
			if err := os.WriteFile(filepath.Join(p21World(w), "ann.json"), text, 0o644); err != nil {
				panic(err)
			}
			p21Check(w, k, []string{"-schema=ann.json", "-target=./tmpl", "-" + flag + "=" + ask}, nil, nil)
		},
	}
}

// p21Many: long command lines in every order of a cycle.
func p21Many(w *engine.W) *engine.Family {
	type fl struct {
		arg string
		set func(k *wish)
	}
	all := []fl{
		{"-schema=good.ridl", func(k *wish) { k.schema = "good.ridl" }},
		{"-target=./gen-golang-m", func(k *wish) { k.target = "./gen-golang-m" }},
		{"-out=out/new", func(k *wish) { k.out = "out/new" }},
		{"-silent", func(k *wish) { k.silent = true }},
		{"-fmt=false", func(k *wish) { k.format = false }},
		{"-service=A,B", func(k *wish) { k.service = "A,B" }},
		{"-methodTreeShake", func(k *wish) { k.shake = true }},
		{"-match=@internal", func(k *wish) { k.match = "@internal" }},
		{"-schemaVersion=v7", func(k *wish) { v := "v7"; k.version = &v }},
		{"-refreshCache", func(k *wish) {}},
	}
	opts := []string{"-client", "-pkg=x", "--server=true", "-a=b=c", "-b=", "-zz=1"}
	counts := engine.Pick(w, []int{0, 1, len(opts)}, []int{0, 1, 2, 3, 4, 5, 6})
	return &engine.Family{
		Name: "many", Bound: fmt.Sprintf("all %d flags, or all but any of them, in every rotation, forward and backward, with %v options before, after, or one between each", len(all), counts),
		Run: func(x *engine.X, w *engine.W) {
			k := &wish{format: true, opts: map[string]any{}}
			drop := x.Choose(len(all) + 1)
			rot := x.Choose(len(all))
			back := x.Bool()
			no := counts[x.Choose(len(counts))]
			where := 0
			if no > 0 {
				where = x.Choose(3)
			}
			var args []string
			for i := range all {
				j := (i + rot) % len(all)
				if j+1 == drop {
					continue
				}
				args = append(args, all[j].arg)
				all[j].set(k)
			}
			if back {
				slices.Reverse(args)
			}
			for i, o := range opts[:no] {
				n, v, _ := option(o)
				k.opts[n] = v
				switch where {
				case 0:
					args = slices.Insert(args, i, o)
				case 1:
					args = append(args, o)
				case 2:
					args = slices.Insert(args, 2*i+1, o)
				}
			}
			if !w.Mine(func() string { return fmt.Sprintf("%q", args) }) {
				return
			}
			if k.schema == "" {
				k.bad = "no schema"
			}
			p21Dirs(w, "gen-golang-m", "package   x\n\n{{- if .Services}}\n// {{.SchemaVersion}}{{range .Services}} {{.Name}}:{{range .Methods}}{{.Name}},{{end}}{{end}}{{range .Types}} {{.Name}}{{end}}{{range $k, $v := .Opts}} {{$k}}={{$v}}{{end}}\n{{end}}\nvar   y =  1\n")
			p21Check(w, k, args, nil, nil)
		},
	}
}

// p21Content: what templates write is what the output has.
func p21Content(w *engine.W) *engine.Family {
	bodies := []string{"", " ", "\n", "\t", "\r\n", "x", "x ", " x", "x\n", "x\n\n", "\nx", "x\r\n", "\x00", "x\x00y", "\xff", "\xef\xbb\xbfx", "é", "<>&\"'", "a%sb%d%%", "\\n", "`", "\x1b[0m", "x\vy", "\u2028", "no newline at end", "tab\tx \n trailing  \n"}
	for n := 1; n <= 20; n++ {
		bodies = append(bodies, strings.Repeat("a", 1<<n-1), strings.Repeat("a", 1<<n), strings.Repeat("line\n", 1<<n/5))
	}
	outs := []string{"", "stdout", "out/new", "out/old", "out/a/b/new", "out/stdout", "out/.new", "out/new file", "out/é", "out/new.go", "out/-", "out/%s", "out/new~", "./out/new", "out//new", "out/./new", "out/a/../new"}
	dirs := []string{"./t-content", "./gen-golang-c"}
	return &engine.Family{
		Name: "content", Bound: fmt.Sprintf("templates that write %d texts of up to a million bytes, to %d outputs, from 2 generators, with -fmt=false", len(bodies), len(outs)),
		Run: func(x *engine.X, w *engine.W) {
			b := x.Choose(len(bodies))
			k := &wish{schema: "good.ridl", opts: map[string]any{}, silent: true}
			k.target = dirs[x.Choose(2)]
			out := outs[x.Choose(len(outs))]
			if len(bodies[b]) > 1<<14 && out != "" && out != "out/new" && out != "out/old" {
				return
			}
			if !w.Mine(func() string { return fmt.Sprintf("%s %s %.40q... (%d)", k.target, out, bodies[b], len(bodies[b])) }) {
				return
			}
			args := []string{"-schema=good.ridl", "-target=" + k.target, "-fmt=false", "-silent"}
			if out != "" {
				args = append(args, "-out="+out)
			}
			if k.out = out; out == "stdout" {
				k.out = ""
			}
			p21Dirs(w, k.target, bodies[b])
			p21Check(w, k, args, nil, nil)
		},
	}
}

// p21Size: the output file cannot be written past a size, as on a full disk.
func p21Size() *engine.Family {
	sizes := []int{0, 1, 100, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 8192, 8193, 40000, 100000, 1000000}
	limits := []int{1, 2, 4, 16}
	outs := []string{"out/new", "out/old", "out/a/new", "out/hard"}
	return &engine.Family{
		Name: "size-limit", Bound: fmt.Sprintf("outputs of %d sizes where files may have at most %v half or whole KB, to new and existing files, -silent or not", len(sizes), limits),
		Run: func(x *engine.X, w *engine.W) {
			n := sizes[x.Choose(len(sizes))]
			limit := limits[x.Choose(len(limits))]
			out := outs[x.Choose(len(outs))]
			silent := x.Bool()
			if !w.Mine(func() string { return fmt.Sprintf("%d bytes to %s, limit %d, silent %v", n, out, limit, silent) }) {
				return
			}
			w.Step(1)
			body := strings.Repeat("0123456789abcdef", n/16+1)[:n]
			p21Dirs(w, "t-size", body)
			args := []string{"-schema=good.ridl", "-target=./t-size", "-out=" + out}
			if silent {
				args = append(args, "-silent")
			}
			p21Limit = limit
			defer func() { p21Limit = 0 }()
			r := p21RunTo(w, nil, args, nil, map[string]string{"old": "OLD", "hard": strings.Repeat("HARD", 100)})
			got := r.files[strings.TrimPrefix(out, "out/")]
			w.State(fmt.Sprint(r.code, len(got) == n))
			switch {
			case r.code == 0 && got != body:
				w.Fail("accepted", "webrpc-gen %q succeeds, but of %d bytes of output %d are in the file", args, n, len(got))
			case r.code == 0:
			case n <= 512*limit:
				w.Fail("rejected", "webrpc-gen %q fails to write %d bytes with room for %d or more: %s", args, n, 512*limit, clip(r.errOut))
			case strings.TrimSpace(r.errOut) == "" || strings.Contains(r.errOut, "goroutine "):
				w.Fail("silent", "webrpc-gen %q fails with exit %d and standard error %q", args, r.code, clip(r.errOut))
			case out == "out/old" && got != "OLD" || out == "out/hard" && got != strings.Repeat("HARD", 100):
				if strings.HasPrefix(body, got) && len(got) >= 512*limit {
					w.Fail("old-output-lost-on-full-disk", "webrpc-gen %q runs out of space after %d of %d bytes, and the existing file has these instead of its own text", args, len(got), n)
				} else {
					w.Fail("old-output-lost", "webrpc-gen %q fails to write, and the existing file has %q", args, clip(got))
				}
			}
		},
	}
}

// p21Help: -help and -version.
func p21Help(w *engine.W) *engine.Family {
	type fl struct{ name, arg string }
	more := [][]string{{}, {"-schema=good.ridl"}, {"-schema=syntax.ridl"}, {"-schema=missing.ridl"}, {"-schema=good.ridl", "-target=./t-help"}, {"-target=./t-help"}, {"-target=./t-help", "-out=out/old"}, {"-schema=good.ridl", "-target=./t-help", "-out=out/old", "-silent"},
		{"-target=./t-help", "-a=b"}, {"-target=./t-help", "--a", "-c=d=e"}, {"-schema=good.ridl", "-target=./missing", "-out=out/new"}, {"-out=out/old"}, {"-schema=good.ridl", "-match=x", "-target=./t-help"}, {"-schema=good.ridl", "-target=./fails"}, {"-schema=good.ridl", "-target=json", "-match=@a", "-ignore=@b"}}
	asks := []string{"-version", "--version", "-version=true", "-version=1", "-h", "-help", "--help", "--h"}
	return &engine.Family{
		Name: "help and version", Bound: fmt.Sprintf("%d ways to ask for help or the version after, before and between %d other command lines", len(asks), len(more)),
		Run: func(x *engine.X, w *engine.W) {
			rest := more[x.Choose(len(more))]
			ask := asks[x.Choose(len(asks))]
			at := x.Choose(len(rest) + 1)
			args := slices.Insert(slices.Clone(rest), at, ask)
			if !w.Mine(func() string { return fmt.Sprintf("%q", args) }) {
				return
			}
			w.Step(1)
			p21Dirs(w, "t-help", `{{if exists .Opts "help"}}HELP{{range $k, $v := .Opts}}[{{$k}}={{$v}}]{{end}}{{.Services}}{{.Types}}{{else}}NO HELP{{end}}`)
			r := p21Run(w, args, nil, map[string]string{"old": "OLD"})
			say := func(sig, f string, a ...any) {
				w.Fail(sig, "webrpc-gen %q: %s\nexit %d\nstdout: %s\nstderr: %s", args, fmt.Sprintf(f, a...), r.code, clip(r.out), r.errOut)
			}
			w.State(fmt.Sprint(r.code, r.out))
			if r.code != 0 {
				say("exit", "fails")
			}
			if show(anyMap(r.files)) != show(map[string]any{"old": "OLD"}) {
				say("files", "changes files: %v", r.files)
			}
			if strings.Contains(ask, "version") {
				if r.out != "webrpc-gen v0.99.0\n" {
					say("version", "prints no version")
				}
				return
			}
			if r.out != "" {
				say("stdout", "help is printed to standard output")
			}
			if !strings.Contains(r.errOut, "-methodTreeShake") || !strings.Contains(r.errOut, "-schema") {
				say("usage", "does not print the flags")
			}
			if slices.Contains(rest[:at], "-target=./t-help") {
				want := "HELP"
				got := map[string]string{"help": ""}
				for _, a := range rest {
					if n, v, ok := option(a); ok && !p21Known[n] {
						got[n] = v
					}
				}
				for _, n := range keys(got) {
					want += "[" + n + "=" + got[n] + "]"
				}
				if want += "[][]\n"; !strings.HasSuffix(r.errOut, "\n"+want) {
					say("help", "prints no help of the target, expected %q", want)
				}
			}
		},
	}
}

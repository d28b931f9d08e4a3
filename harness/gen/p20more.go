package main

import (
	"fmt"
	"strings"

	"github.com/webrpc/webrpc/gen"
	engine "verifengine"
)

// calls of every helper with what each gives, wherever it is made
var p20Tour = [][2]string{
	{`toLower "AB"`, "ab"}, {`toUpper "ab"`, "AB"}, {`firstLetterToLower "AB"`, "aB"}, {`firstLetterToUpper "ab"`, "Ab"},
	{`firstWordToLower "HTTPServer"`, "httpServer"}, {`camelCase "ab_cd"`, "abCd"}, {`pascalCase "ab_cd"`, "AbCd"},
	{`snakeCase "abCd"`, "ab_cd"}, {`kebabCase "abCd"`, "ab-cd"}, {`replaceAll "aXa" "a" "b"`, "bXb"},
	{`join (array "a" "b") "-"`, "a-b"}, {`split "," "a,b"`, "[a b]"}, {`hasPrefix "abc" "ab"`, "true"}, {`hasPrefix "ab" "abc"`, "false"},
	{`hasSuffix "abc" "bc"`, "true"}, {`hasSuffix "bc" "abc"`, "false"}, {`trimPrefix "abc" "ab"`, "c"}, {`trimSuffix "abc" "bc"`, "a"},
	{`first (array 1 2)`, "1"}, {`last (array 1 2)`, "2"}, {`lastIndex (array 1 2 3)`, "2"}, {`append (array 1) 2`, "[1 2]"},
	{`sort (array "b" "a")`, "[a b]"}, {`coalesce "" "x" "y"`, "x"}, {`default "" "d"`, "d"}, {`default "v" "d"`, "v"},
	{`in 1 2 1`, "true"}, {`in 1 2 3`, "false"}, {`ternary true 1 2`, "1"}, {`ternary false 1 2`, "2"},
	{`get (dict "k" 1) "k"`, "1"}, {`exists (dict "k" 1) "k"`, "true"}, {`exists (dict "k" 1) "l"`, "false"}, {`set (dict "k" 1) "k" 2`, ""},
	{`minVersion "v1.10" "v1.9"`, "true"}, {`minVersion "v1.9" "v1.10"`, "false"},
	{`hasField $ "Opts"`, "true"}, {`hasField $ "Nope"`, "false"}, {`isString "x"`, "true"}, {`isString 1`, "false"},
	{`isCoreType "string"`, "true"}, {`isBasicType "string"`, "true"}, {`isCoreType "Foo"`, "false"},
	{`isMapType "map<string,int>"`, "true"}, {`isListType "[]int"`, "true"}, {`isListType "int"`, "false"},
	{`mapKeyType "map<string,[]int>"`, "string"}, {`mapValueType "map<string,[]int>"`, "[]int"}, {`listElemType "[][]int"`, "[]int"},
	{`SchemaUsesBigInts $.WebRPCSchema`, "false"}, {`SchemaBigIntFieldsByType $.WebRPCSchema`, "map[]"},
	{`stderrPrintf ""`, ""}, {`stderrPrint ""`, ""},
}

// p20Contexts: helpers do not depend on where they are called.
func p20Contexts(w *engine.W) *engine.Family {
	var names []string
	seen := map[string]bool{}
	for _, t := range p20Tour {
		n, _, _ := strings.Cut(t[0], " ")
		if !seen[n] {
			seen[n] = true
			names = append(names, n)
		}
	}
	names = append(names, "dict", "array", "dump", "exit", "isStructType", "isEnumType", "isAliasType", "upper", "env", "zz", "")
	vals := []any{"", "x", "true", nil}
	calls := func() string {
		var b strings.Builder
		for _, t := range p20Tour {
			fmt.Fprintf(&b, "{{%s}}\n", t[0])
		}
		return b.String()
	}()
	want := ""
	for _, t := range p20Tour {
		want += t[1] + "\n"
	}
	docs := []func() *Doc{
		func() *Doc { return NewDoc() },
		func() *Doc { return NewDoc(support()...) },
		func() *Doc {
			d := NewDoc(support()...)
			for k := 0; k < menuSize; k++ {
				d.Add(menu(k, k))
			}
			return d
		},
	}
	// where the calls stand
	forms := []map[string]string{
		{"main.go.tmpl": `{{define "main"}}` + calls + `{{end}}`},
		{"main.go.tmpl": `{{define "main"}}{{template "other" .}}{{end}}`, "a.go.tmpl": `{{define "other"}}` + calls + `{{end}}`},
		{"main.go.tmpl": `{{define "main"}}{{range $i, $x := array 1 2}}{{if eq $i 1}}{{with $}}` + calls + `{{end}}{{end}}{{end}}{{end}}`},
		{"main.go.tmpl": `{{define "main"}}{{template "other" .}}{{end}}{{define "other"}}` + calls + `{{end}}`, "z.go.tmpl": `{{define "rest"}}` + calls + calls + `{{end}}`},
	}
	return &engine.Family{
		Name: "contexts", Bound: fmt.Sprintf("%d calls of all helpers in one template, with an option named like each of %d helpers and %d values of it, from the main template, another one, another file, within blocks, with %d schemas", len(p20Tour), len(names), len(vals), len(docs)),
		Run: func(x *engine.X, w *engine.W) {
			n, v := names[x.Choose(len(names))], vals[x.Choose(len(vals))]
			f, k := x.Choose(len(forms)), x.Choose(len(docs))
			if !w.Mine(func() string { return fmt.Sprintf("option %q=%v, form %d, schema %d", n, v, f, k) }) {
				return
			}
			s, err := parseText(docs[k]().RIDL())
			if err != nil {
				w.Fail("parse", "%v", err)
				return
			}
			w.Step(1)
			out, err := gen.Generate(s, tmplDir(w, forms[f]), &gen.Config{TemplateOptions: map[string]any{n: v}})
			if err != nil {
				w.Fail("error", "the calls fail: %v", err)
				return
			}
			w.State(out.Code)
			got := strings.Split(out.Code, "\n")
			for i, l := range strings.Split(want, "\n") {
				if k == 2 && strings.Contains(append(p20Tour, [2]string{})[i][0], "BigInt") {
					continue // this schema has some
				}
				if i >= len(got) || got[i] != l {
					w.Fail("differs", "%s gives %q, expected %q", append(p20Tour, [2]string{})[i][0], strings.Join(got[min(i, len(got)):min(i+1, len(got))], ""), l)
					return
				}
			}
		},
	}
}

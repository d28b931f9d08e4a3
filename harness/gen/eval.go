package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

var tmplDirs = map[string]string{}

// tmplDir is a directory with the given template files, kept for the worker's life.
func tmplDir(w *engine.W, files map[string]string) string {
	key := fmt.Sprint(files)
	dir, ok := tmplDirs[key]
	if !ok {
		dir = filepath.Join(w.Dir, fmt.Sprintf("t%d", len(tmplDirs)))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
		for name, text := range files {
			if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
				panic(err)
			}
		}
		tmplDirs[key] = dir
	}
	return dir
}

// eval runs a template body through gen.Generate.
func eval(w *engine.W, s *schema.WebRPCSchema, body string, opts map[string]any) (code string, err error) {
	dir := tmplDir(w, map[string]string{"main.go.tmpl": `{{define "main"}}` + body + `{{end}}`})
	if s == nil {
		s = &schema.WebRPCSchema{}
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
			w.Fail("panic", "gen.Generate panics on template %s: %v", body, r)
		}
	}()
	out, err := gen.Generate(s, dir, &gen.Config{TemplateOptions: opts})
	if err != nil {
		return "", err
	}
	return out.Code, nil
}

// A session is one gen.Generate of a template that handles case after case: every
// call on a template is made in the way that templates make it, without setting
// up the whole generator for each.
type session struct {
	in   chan map[string]any
	done chan error
	n    int
}

var sessions = map[string]*session{}

// one runs the template body with dot set to c.
func one(w *engine.W, body string, c map[string]any) error {
	s := sessions[body]
	if s == nil {
		s = &session{in: make(chan map[string]any), done: make(chan error)}
		sessions[body] = s
		go func() {
			_, err := eval(w, nil, `{{range .Opts.in}}`+body+`{{call .done}}{{end}}`, map[string]any{"in": s.in})
			s.done <- err
		}()
	}
	d := map[string]any{"done": func() string { s.done <- nil; return "" }}
	for k, v := range c {
		d[k] = v
	}
	s.in <- d
	err := <-s.done
	if err != nil {
		delete(sessions, body)
		return err
	}
	if s.n++; s.n >= 5000 {
		delete(sessions, body)
		close(s.in)
		if err := <-s.done; err != nil {
			w.Fail("end", "template %s fails at its end: %v", body, err)
		}
	}
	return nil
}

// call calls a template function the way a template does and returns the value.
func call(w *engine.W, fn string, args []any) (got any, err error) {
	body := `{{call .ret (` + fn
	for i := range args {
		body += fmt.Sprintf(` (index $c.a %d)`, i)
	}
	n := 0
	err = one(w, `{{$c := .}}`+body+`)}}`, map[string]any{"a": args, "ret": func(v any) string { n++; got = v; return "" }})
	if err == nil && n != 1 {
		w.Fail("returns", "%s called once returned %d times", fn, n)
	}
	return got, err
}

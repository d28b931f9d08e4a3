package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P15",
		Rule: "An execution parses one document with certain headers, in RIDL, JSON or built in memory, compares acceptance and all header values with the reference and validates the result again; a state is a distinct expected schema or rejection.",
		Assumptions: []string{
			"white space in a base path means ASCII white space; other Unicode spaces are not judged",
			"a valid URL path is one that, with a leading slash, has no control characters and only complete percent escapes",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p15Paths(w), p15Pieces(w), p15Bytes(w), p15Heads(w), p15Versions(w), p15Need(), p15Values(w), p15Bare(w), p15Dup(w), p15Null()}
		},
	})
}

// again validates an accepted schema twice more and through JSON.
func again(w *engine.W, s *schema.WebRPCSchema, want *Sch) {
	for i := 0; i < 2; i++ {
		w.Step(1)
		if err := s.Validate(); err != nil {
			w.Fail("revalidate", "validating again failed: %v", err)
			return
		}
		if got := Real(s).String(); got != want.String() {
			w.Fail("revalidate", "validating again changed the schema:\n%s", diff(want.String(), got))
			return
		}
	}
}

// base checks one base path in one way of giving it.
func base(w *engine.W, p string, way int) {
	d := &Doc{}
	d.Add(&Head{Key: "webrpc", Val: W("v1")}, &Head{Key: "version", Val: W("1")})
	if p != "" {
		d.Add(&Head{Key: "basepath", Val: Q(p)})
	}
	d.Add(&Svc{Name: "V", Methods: []Method{{Name: "M"}}})
	want, ok := d.Expect()
	var o Outcome
	var good bool
	switch way {
	case 0:
		o, good = expect(w, d.RIDL(), want, ok)
	case 1:
		o, good = runJSON(w, d)
	case 2:
		s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaVersion: "1", BasePath: p, Services: []*schema.Service{{Name: "V", Methods: []*schema.Method{{Name: "M"}}}}}
		err := s.Validate()
		if err != nil {
			s = nil
		}
		o, good = judge(w, s, err, want, ok)
	}
	if good && o.OK {
		again(w, o.S, want)
	}
}

func p15Paths(w *engine.W) *engine.Family {
	alpha := []string{"/", "a", ".", "?", "#", " ", ":", "%", "2", "F"}
	n := engine.Pick(w, 5, 6)
	ws := words(alpha, 0, n)
	return &engine.Family{
		Name: "paths", Bound: fmt.Sprintf("all %d texts of up to %d characters out of %d as base path, in JSON; those of up to 4 in RIDL and by a direct call too", len(ws), n, len(alpha)),
		Run: func(x *engine.X, w *engine.W) {
			i := x.Choose(len(ws))
			way := 1
			if i < 11111 {
				way = x.Choose(3)
			}
			if w.Mine(func() string { return fmt.Sprintf("way %d, basepath %q", way, ws[i]) }) {
				base(w, ws[i], way)
			}
		},
	}
}

func p15Pieces(w *engine.W) *engine.Family {
	pieces := []string{"/", "//", "api", "http://", "HTTPS:", "://", ":/", "user@", "host:80", "[::1]", "%20", "%2", "%zz", "%2F", "..", "./", "*", "\\", "{id}", "&", "=", "+", ";", ",", "é", "%C3%A9", "\t", "\n", "\r", "?", "#", "mailto:"}
	n := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "pieces", Bound: fmt.Sprintf("all sequences of up to %d out of %d URL-like pieces as base path, RIDL (without carriage returns), JSON and direct", n, len(pieces)),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(n + 1)
			p, cr := "", false
			for i := 0; i < k; i++ {
				s := pieces[x.Choose(len(pieces))]
				p += s
				cr = cr || s == "\r" || s == "\\"
			}
			way := 1
			if k < n {
				way = x.Choose(3)
			}
			if way == 0 && cr {
				return
			}
			if w.Mine(func() string { return fmt.Sprintf("way %d, basepath %q", way, p) }) {
				base(w, p, way)
			}
		},
	}
}

func p15Bytes(w *engine.W) *engine.Family {
	at := []string{"%s", "/%s", "a%sb", "/a/%s/", "%s/b"}
	return &engine.Family{
		Name: "bytes", Bound: fmt.Sprintf("every ASCII character, alone and doubled, at %d places in a base path, JSON and direct", len(at)),
		Run: func(x *engine.X, w *engine.W) {
			c := string(rune(x.Choose(128)))
			if x.Bool() {
				c += c
			}
			p := fmt.Sprintf(at[x.Choose(len(at))], c)
			way := 1 + x.Choose(2)
			if w.Mine(func() string { return fmt.Sprintf("way %d, basepath %q", way, p) }) {
				base(w, p, way)
			}
		},
	}
}

// p15Heads: sequences of headers.
func p15Heads(w *engine.W) *engine.Family {
	hs := []Head{
		{Key: "webrpc", Val: W("v1")}, {Key: "webrpc", Val: W("v2")}, {Key: "name", Val: W("one")}, {Key: "name", Val: Q("two words")},
		{Key: "version", Val: W("v0.1.0")}, {Key: "version", Val: Q("2")}, {Key: "basepath", Val: Q("api/v1")}, {Key: "basepath", Val: W("/rpc/")},
	}
	n := engine.Pick(w, 5, 6)
	return &engine.Family{
		Name: "sequences", Bound: fmt.Sprintf("all sequences of up to %d headers out of %d, with or without a service, before or after other definitions", n, len(hs)),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(n + 1)
			d := &Doc{}
			kind := x.Choose(4)
			if kind == 1 {
				d.Add(&Svc{Name: "S", Methods: []Method{{Name: "M"}}})
			}
			for i := 0; i < k; i++ {
				h := hs[x.Choose(len(hs))]
				d.Add(&h)
				if kind == 3 && i == k/2 {
					d.Add(&Struct{Name: "T"}, &Svc{Name: "S", Methods: []Method{{Name: "M"}}})
				}
			}
			if kind == 2 {
				d.Add(&Svc{Name: "S", Methods: []Method{{Name: "M"}}})
			}
			run(w, d)
		},
	}
}

func p15Versions(w *engine.W) *engine.Family {
	ws := append(words([]string{"v", "V", "1", "2", ".", "0", " "}, 0, engine.Pick(w, 4, 5)), "v1\u00a0", "ｖ1", "v１", "v1\t", "v1\n", "version1", "v11", "v1-beta")
	return &engine.Family{
		Name: "versions", Bound: fmt.Sprintf("%d texts as the webrpc version, RIDL, JSON and direct", len(ws)),
		Run: func(x *engine.X, w *engine.W) {
			v := ws[x.Choose(len(ws))]
			way := x.Choose(3)
			if way == 0 && v == "" {
				return
			}
			if !w.Mine(func() string { return fmt.Sprintf("way %d, webrpc %q", way, v) }) {
				return
			}
			d := (&Doc{}).Add(&Head{Key: "webrpc", Val: Q(v)}, &Head{Key: "name", Val: W("n")})
			want, ok := d.Expect()
			switch way {
			case 0:
				expect(w, d.RIDL(), want, ok)
			case 1:
				s, err := parseJSON(d.JSON(false))
				want, ok = (&Doc{}).Add(&Head{Key: "webrpc", Val: Q(v)}, &Head{Key: "name", Val: W("n")}).Expect()
				judge(w, s, err, want, ok && v == "v1")
			case 2:
				s := &schema.WebRPCSchema{WebrpcVersion: v, SchemaName: "n"}
				err := s.Validate()
				if err != nil {
					s = nil
				}
				judge(w, s, err, want, ok && v == "v1")
			}
		},
	}
}

// p15Need: when a version is needed.
func p15Need() *engine.Family {
	return &engine.Family{
		Name: "need", Bound: "every subset of headers with every number of services 0..3 in the file and 0..2 in its import, RIDL; without import JSON and direct too",
		Run: func(x *engine.X, w *engine.W) {
			mask := x.Choose(16)
			own, imp := x.Choose(4), x.Choose(4)-1
			build := func(mask int) *Doc {
				d := &Doc{}
				for i, h := range []Head{{Key: "webrpc", Val: W("v1")}, {Key: "name", Val: W("n")}, {Key: "version", Val: W("1.2")}, {Key: "basepath", Val: W("/b")}} {
					if mask>>i&1 == 1 {
						d.Add(&h)
					}
				}
				return d
			}
			if imp < 0 {
				runBoth(w, func() *Doc {
					d := build(mask)
					for i := 0; i < own; i++ {
						d.Add(&Svc{Name: fmt.Sprintf("V%d", i), Methods: []Method{{Name: "M"}}})
					}
					return d
				})
				return
			}
			bmask := x.Choose(16)
			runFiles(w, func() (Files, string) {
				a, b := build(mask), build(bmask)
				a.Add(&Imp{Path: W("b.ridl")}, &Struct{Name: "A"})
				b.Add(&Struct{Name: "B"})
				for i := 0; i < own; i++ {
					a.Add(&Svc{Name: fmt.Sprintf("V%d", i), Methods: []Method{{Name: "M"}}})
				}
				for i := 0; i < imp; i++ {
					b.Add(&Svc{Name: fmt.Sprintf("W%d", i), Methods: []Method{{Name: "M"}}})
				}
				return Files{"a.ridl": a, "b.ridl": b}, "a.ridl"
			})
		},
	}
}

// p15Values: names and versions are kept verbatim.
func p15Values(w *engine.W) *engine.Family {
	ws := words([]string{"v", "1", ".", "-", "/", " ", "_", "\"", "#", "é"}, 1, engine.Pick(w, 3, 4))
	keys := []string{"name", "version"}
	return &engine.Family{
		Name: "values", Bound: fmt.Sprintf("%d texts as name and as version, quoted or bare where possible, RIDL and JSON", len(ws)),
		Run: func(x *engine.X, w *engine.W) {
			v := ws[x.Choose(len(ws))]
			k := keys[x.Choose(2)]
			q := x.Bool()
			runBoth(w, func() *Doc {
				d := (&Doc{}).Add(&Head{Key: "webrpc", Val: W("v1")}, &Head{Key: k, Val: Lit{v, q}})
				if k == "version" {
					d.Add(&Svc{Name: "V", Methods: []Method{{Name: "M"}}})
				}
				return d
			})
		},
	}
}

// p15Bare: header values without quotes may have slashes.
func p15Bare(w *engine.W) *engine.Family {
	ws := words([]string{"v", "1", ".", "-", "/", "_"}, 1, engine.Pick(w, 4, 5))
	for _, v := range wordValues {
		if bare(v) {
			ws = append(ws, v, "/"+v, v+"/"+v)
		}
	}
	keys := []string{"name", "version", "basepath"}
	after := []string{"", " ", "\t# c"}
	return &engine.Family{
		Name: "bare-values", Bound: fmt.Sprintf("%d texts without quotes as name, version and base path, with %d endings of the line", len(ws), len(after)),
		Run: func(x *engine.X, w *engine.W) {
			v := ws[x.Choose(len(ws))]
			k := keys[x.Choose(3)]
			a := after[x.Choose(3)]
			if r := strings.TrimLeft(v, "/"); r != "" && !bare(r[:1]) {
				return
			}
			doc := func(l Lit) *Doc {
				d := &Doc{}
				for _, key := range append([]string{"webrpc"}, keys...) {
					h := &Head{Key: key, Val: W("v1")}
					if key == k {
						h.Val = l
					}
					d.Add(h)
				}
				return d.Add(&Svc{Name: "V", Methods: []Method{{Name: "M"}}})
			}
			text := strings.Replace(doc(W("VALUE0")).RIDL(), "VALUE0", v+a, 1)
			if w.Mine(func() string { return text }) {
				want, ok := doc(Q(v)).Expect()
				expect(w, text, want, ok)
			}
		},
	}
}

// p15Dup: a header repeated at any distance.
func p15Dup(w *engine.W) *engine.Family {
	n := engine.Pick(w, 24, 60)
	keys := []string{"webrpc", "name", "version", "basepath"}
	return &engine.Family{
		Name: "repeated", Bound: fmt.Sprintf("each header repeated, with the same or another value, with 0..%d definitions between, with and without an import that has it too", n),
		Run: func(x *engine.X, w *engine.W) {
			k := keys[x.Choose(4)]
			dist := x.Choose(n + 1)
			same := x.Bool()
			kind := x.Choose(3) // 0: repeated, 1: only in the import, 2: once
			runFiles(w, func() (Files, string) {
				val := map[string]string{"webrpc": "v1", "name": "n", "version": "1", "basepath": "/b"}
				d := &Doc{}
				for _, key := range keys {
					d.Add(&Head{Key: key, Val: W(val[key])})
				}
				for i := 0; i < dist; i++ {
					d.Add(menu(i%menuSize-(i%menuSize)/18*18, i))
				}
				d.Add(support()...)
				if kind == 0 {
					v := val[k]
					if !same && k != "webrpc" {
						v += "2"
					}
					d.Add(&Head{Key: k, Val: W(v)})
				}
				if kind == 1 {
					d.Add(&Imp{Path: W("b.ridl")})
				}
				return Files{"a.ridl": d, "b.ridl": (&Doc{}).Add(&Head{Key: "webrpc", Val: W("v1")}, &Head{Key: "name", Val: W("other")}, &Head{Key: "version", Val: W("9")}, &Head{Key: "basepath", Val: W("/other")})}, "a.ridl"
			})
		},
	}
}

// p15Null: header values of other JSON types.
func p15Null() *engine.Family {
	vals := []string{"null", "1", "true", "[]", "{}", "[\"v1\"]", "\"v1\"", "\"\"", "-"}
	keys := []string{"webrpc", "name", "version", "basepath"}
	return &engine.Family{
		Name: "json-values", Bound: fmt.Sprintf("%d JSON values or none for each header, with and without services", len(vals)-1),
		Run: func(x *engine.X, w *engine.W) {
			k := keys[x.Choose(4)]
			v := vals[x.Choose(len(vals))]
			svc := x.Bool()
			m := map[string]json.RawMessage{"webrpc": json.RawMessage(`"v1"`), "name": json.RawMessage(`"n"`), "version": json.RawMessage(`"1"`), "basepath": json.RawMessage(`"/b/"`)}
			m[k] = json.RawMessage(v)
			if v == "-" {
				delete(m, k)
			}
			if svc {
				m["services"] = json.RawMessage(`[{"name":"V","methods":[{"name":"M"}]}]`)
			}
			b, _ := json.Marshal(m)
			if !w.Mine(func() string { return string(b) }) {
				return
			}
			_, err := parseJSON(string(b))
			w.Step(1)
			w.State(k + v)
			ok := v == "\"v1\""
			if v == "null" || v == "\"\"" || v == "-" { // not given
				ok = k == "name" || k == "basepath" || k == "version" && !svc
			}
			if ok != (err == nil) {
				w.Fail("accepted", "%s = %s: error is %v", k, v, err)
			}
		},
	}
}

package main

import (
	"fmt"
	"strings"

	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P13",
		Rule: "An execution parses one document with errors (or set of files), in RIDL or JSON, and compares acceptance and the whole schema with the reference; a state is a distinct expected schema or rejection.",
		Assumptions: []string{
			"RIDL codes up to 2^31-1 are representable; JSON codes between that and 2^63 are not judged",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p13Status(w), p13Codes(w), p13CodeWords(w), p13JSON(), p13Reserved(), p13Names(w), p13Messages(w), p13Dup(w), p13Far(w), p13Defaults(), p13Imports(w), p13Trees(w)}
		},
	})
}

// p13Doc puts one error first, last or alone.
func p13Doc(e Err, place int) *Doc {
	a := &Err{Code: "900001", Name: "Aaa", Msg: Q("first message"), HTTP: "401"}
	b := &Err{Code: "900002", Name: "Zzz", Msg: W("second")}
	d := NewDoc()
	switch place {
	case 0:
		d.Add(&e)
	case 1:
		d.Add(&e, a, b)
	case 2:
		d.Add(a, b, &e)
	case 3:
		d.Add(a, &Struct{Name: "S"}, &e, &Svc{Name: "V", Methods: []Method{{Name: "M", Errs: []string{"Zzz", e.Name}}}}, b)
	}
	return d
}

const p13Places = 4

func p13Status(w *engine.W) *engine.Family {
	n := engine.Pick(w, 1100, 10100)
	var far []string // beyond n, with a valid status in their low digits or bits
	for _, m := range []int64{1000, 10000, 100000, 1000000, 256, 1 << 9, 1 << 10, 1 << 16, 1 << 31, 1 << 32, 1 << 62} {
		for _, k := range []int64{1, 2, 4, 5, 9, -1, -2} {
			for _, r := range []int64{0, 1, 399, 400, 401, 404, 500, 599, 600} {
				if v := m*k + r; v > int64(n) || v < 0 {
					far = append(far, fmt.Sprint(v))
				}
			}
		}
	}
	return &engine.Family{
		Name: "status", Bound: fmt.Sprintf("every HTTP status from 0 to %d, and none, and %d far ones, at %d places, RIDL and JSON", n, len(far), p13Places),
		Run: func(x *engine.X, w *engine.W) {
			s := x.Choose(n + 2 + len(far))
			place := x.Choose(p13Places)
			runBoth(w, func() *Doc {
				e := Err{Code: "7", Name: "Err", Msg: Q("m")}
				if s > n+1 {
					e.HTTP = far[s-n-2]
				} else if s > 0 {
					e.HTTP = fmt.Sprint(s - 1)
				}
				return p13Doc(e, place)
			})
		},
	}
}

func p13Codes(w *engine.W) *engine.Family {
	n := engine.Pick(w, 3000, 70000)
	return &engine.Family{
		Name: "codes", Bound: fmt.Sprintf("every code from 0 to %d and within 2 of every power of two up to 2^31-1, at %d places, RIDL and JSON", n, p13Places),
		Run: func(x *engine.X, w *engine.W) {
			c := x.Choose(n + 1 + 31*5)
			if c > n {
				c -= n + 1
				c = 1<<(c/5) + c%5 - 2
				if c/1 > 1<<31-1 || c < 0 {
					return
				}
			}
			place := x.Choose(p13Places)
			runBoth(w, func() *Doc { return p13Doc(Err{Code: fmt.Sprint(c), Name: "Err", Msg: Q("m"), HTTP: "500"}, place) })
		},
	}
}

// p13CodeWords: codes and statuses as RIDL words.
func p13CodeWords(w *engine.W) *engine.Family {
	ws := append(words([]string{"0", "1", "9", "x", "_", ".", "e"}, 1, engine.Pick(w, 4, 5)),
		"2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551617", "99999999999999999999999",
		"000000000000000000000000000001", "0x10", "0b1", "0o7", "1_0", "400", "0400", "4294967696", "18446744073709552016", "code", "٣")
	return &engine.Family{
		Name: "code-words", Bound: fmt.Sprintf("%d words over digits and letters, and boundary values, as code and as HTTP status in RIDL", len(ws)),
		Run: func(x *engine.X, w *engine.W) {
			s := ws[x.Choose(len(ws))]
			status := x.Bool()
			place := []int{1, 3}[x.Choose(2)]
			run(w, func() *Doc {
				e := Err{Code: s, Name: "Err", Msg: Q("m")}
				if status {
					e.Code, e.HTTP = "5", s
				}
				return p13Doc(e, place)
			}())
		},
	}
}

// p13JSON: raw JSON values of each attribute.
func p13JSON() *engine.Family {
	vals := []string{"", "null", "0", "-1", "1", "400", "599", "600", "399", "-400", "1.5", "400.0", "4e2", "1e30", "\"5\"", "\"\"", "\"400\"", "\"Name\"", "\"name\"", "true", "[]", "{}", "[400]", "9223372036854775808", "99999999999999999999", "-9223372036854775809", "18446744073709551617"}
	keys := []string{"code", "name", "message", "httpStatus"}
	// what is right for each key
	good := map[string]map[string]bool{
		"code": {"1": true, "400": true, "599": true, "600": true, "399": true}, "name": {"\"Name\"": true},
		"message": {"\"5\"": true, "\"400\"": true, "\"Name\"": true, "\"name\"": true}, "httpStatus": {"400": true, "599": true},
	}
	loose := map[string]bool{"400.0": true, "4e2": true} // numbers written unusually may be refused or taken
	return &engine.Family{
		Name: "json-values", Bound: fmt.Sprintf("%d JSON values or none for each attribute, at two places", len(vals)),
		Run: func(x *engine.X, w *engine.W) {
			k := keys[x.Choose(4)]
			v := vals[x.Choose(len(vals))]
			last := x.Bool()
			text := ""
			build := func() string {
				m := map[string]string{"code": "3", "name": "\"Err\"", "message": "\"msg\"", "httpStatus": "404"}
				m[k] = v
				var ps []string
				for _, key := range keys {
					if m[key] != "" {
						ps = append(ps, fmt.Sprintf("%q:%s", key, m[key]))
					}
				}
				e, o := "{"+strings.Join(ps, ",")+"}", `{"code":1000000,"name":"Other","message":"o","httpStatus":500}`
				if last {
					e, o = o, e
				}
				return `{"webrpc":"v1","name":"x","version":"v1","basepath":"","types":[],"services":[],"errors":[` + e + "," + o + "]}"
			}
			if !w.Mine(func() string { return build() }) {
				return
			}
			text = build()
			s, err := parseJSON(text)
			w.Step(1)
			w.State(k + v)
			if loose[v] {
				return
			}
			if good[k][v] != (err == nil) {
				w.Fail("accepted", "%s = %s: error is %v", k, v, err)
				return
			}
			if err != nil {
				return
			}
			for _, e := range s.Errors {
				if e.Name == "Other" {
					continue
				}
				got := map[string]string{"code": fmt.Sprint(e.Code), "name": jstr(e.Name), "message": jstr(e.Message), "httpStatus": fmt.Sprint(e.HTTPStatus)}
				if got[k] != v {
					w.Fail("differs", "%s = %s became %s", k, v, got[k])
				}
			}
		},
	}
}

// p13Reserved: the reserved prefix in every casing.
func p13Reserved() *engine.Family {
	sfx := []string{"", "X", "x", "1", "Err", "_"}
	pre := []string{"webrpc", "webrp", "webrcp", "xwebrpc", "web_rpc", "ebrpc", "webrpcc", "wwebrpc"}
	return &engine.Family{
		Name: "reserved", Bound: fmt.Sprintf("%d names like the reserved prefix in every casing, with %d suffixes, RIDL and JSON", len(pre), len(sfx)),
		Run: func(x *engine.X, w *engine.W) {
			p := []byte(pre[x.Choose(len(pre))])
			for i, c := range p {
				if c != '_' && x.Bool() {
					p[i] = c - 32
				}
			}
			n := string(p) + sfx[x.Choose(len(sfx))]
			runBoth(w, func() *Doc { return p13Doc(Err{Code: "3", Name: n, Msg: Q("m"), HTTP: "404"}, 2) })
		},
	}
}

func p13Names(w *engine.W) *engine.Family {
	ws := words([]string{"A", "z", "Z", "0", "_", "É", "é"}, 1, engine.Pick(w, 4, 5))
	return &engine.Family{
		Name: "names", Bound: fmt.Sprintf("all %d short names over letters, digits and underscore, RIDL and JSON", len(ws)),
		Run: func(x *engine.X, w *engine.W) {
			n := ws[x.Choose(len(ws))]
			build := func() *Doc { return p13Doc(Err{Code: "3", Name: n, Msg: Q("m"), HTTP: "404"}, 3) }
			if !strings.ContainsAny(n, "Éé") {
				runBoth(w, build)
			} else if w.Mine(func() string { return build().JSON(false) }) {
				runJSON(w, build()) // RIDL words are ASCII
			}
		},
	}
}

func p13Messages(w *engine.W) *engine.Family {
	ws := words([]string{"a", " ", "HTTP", "404", "#", "\"", "-"}, 0, engine.Pick(w, 4, 5))
	ws = append(append(ws, markValues...), wordValues...)
	return &engine.Family{
		Name: "messages", Bound: fmt.Sprintf("all %d messages: up to 4 (thorough 5) pieces, words and marks, with and without status, RIDL and JSON", len(ws)),
		Run: func(x *engine.X, w *engine.W) {
			m := ws[x.Choose(len(ws))]
			h := []string{"", "503"}[x.Choose(2)]
			runBoth(w, func() *Doc { return p13Doc(Err{Code: "3", Name: "Err", Msg: Q(m), HTTP: h}, 1) })
		},
	}
}

// p13Dup: all triples of errors out of few codes and names.
func p13Dup(w *engine.W) *engine.Family {
	names := []string{"Aa", "AA", "Bb", "BB", "Ab"}
	codes := []string{"1", "2", "01", "12"}
	n := engine.Pick(w, 3, 4)
	return &engine.Family{
		Name: "duplicates", Bound: fmt.Sprintf("all sequences of 2..%d errors out of %d codes and %d names, RIDL and JSON", n, len(codes), len(names)),
		Run: func(x *engine.X, w *engine.W) {
			k := 2 + x.Choose(n-1)
			var es []any
			for i := 0; i < k; i++ {
				es = append(es, &Err{Code: codes[x.Choose(len(codes))], Name: names[x.Choose(len(names))], Msg: Q(fmt.Sprintf("m%d", i)), HTTP: fmt.Sprint(400 + i)})
			}
			runBoth(w, func() *Doc { return NewDoc(es...) })
		},
	}
}

// p13Far: two equal codes or names at any distance.
func p13Far(w *engine.W) *engine.Family {
	n := engine.Pick(w, 24, 60)
	return &engine.Family{
		Name: "far", Bound: fmt.Sprintf("a repeated code, name or name in other letter case at any two of %d errors, RIDL and JSON", n),
		Run: func(x *engine.X, w *engine.W) {
			i := x.Choose(n)
			j := x.Choose(n)
			what := x.Choose(4)
			if j <= i {
				return
			}
			runBoth(w, func() *Doc {
				d := NewDoc()
				for k := 0; k < n; k++ {
					e := &Err{Code: fmt.Sprint(100 + k), Name: fmt.Sprintf("Err%dx", k), Msg: Q("m")}
					if k == j {
						switch what {
						case 1:
							e.Code = fmt.Sprint(100 + i)
						case 2:
							e.Name = fmt.Sprintf("Err%dx", i)
						case 3:
							e.Name = fmt.Sprintf("ERR%dX", i)
						}
					}
					d.Add(e)
				}
				return d
			})
		},
	}
}

// p13Defaults: sequences of errors with and without a status.
func p13Defaults() *engine.Family {
	hs := []string{"", "400", "404", "599", "500"}
	return &engine.Family{
		Name: "defaults", Bound: "all sequences of 4 errors with 5 choices of status, between other definitions or not, RIDL and JSON",
		Run: func(x *engine.X, w *engine.W) {
			var h [4]string
			for i := range h {
				h[i] = hs[x.Choose(len(hs))]
			}
			mixed := x.Bool()
			runBoth(w, func() *Doc {
				d := NewDoc()
				for i, s := range h {
					d.Add(&Err{Code: fmt.Sprint(9 - i), Name: fmt.Sprintf("E%d", i), Msg: []Lit{Q("some text"), W("word")}[i%2], HTTP: s})
					if mixed {
						d.Add(&Enum{Name: fmt.Sprintf("N%d", i), T: "int", Mem: []Member{{Name: "A"}}})
					}
				}
				return d
			})
		},
	}
}

// p13Imports: errors spread over files.
func p13Imports(w *engine.W) *engine.Family {
	codes, names := []string{"1", "2"}, []string{"Aa", "AA", "Bb"}
	return &engine.Family{
		Name: "imports", Bound: "one error in each of three files of every shape of imports (chain, fan, diamond with member lists), all codes out of 2 and names out of 3, otherwise alike or not",
		Run: func(x *engine.X, w *engine.W) {
			var es [3]Err
			for i := range es {
				es[i] = Err{Code: codes[x.Choose(2)], Name: names[x.Choose(3)], Msg: Q(fmt.Sprintf("m%d", i)), HTTP: fmt.Sprint(401 + i)}
			}
			shape := x.Choose(4)
			list := x.Choose(5)
			if x.Bool() { // alike but for what is chosen
				for i := range es {
					es[i].Msg, es[i].HTTP = Q("m"), "401"
				}
			}
			runFiles(w, func() (Files, string) {
				lists := [][]string{nil, {"Aa"}, {"Bb"}, {"Aa", "Bb"}, {"Other"}}
				l := lists[list]
				a, b, c := es[0], es[1], es[2]
				f := Files{"c.ridl": NewDoc(&c, &Struct{Name: "Other"})}
				switch shape {
				case 0: // chain
					f["a.ridl"] = NewDoc(&Imp{Path: W("b.ridl")}, &a)
					f["b.ridl"] = NewDoc(&b, &Imp{Path: W("c.ridl"), Members: l})
				case 1: // fan
					f["a.ridl"] = NewDoc(&Imp{Path: W("b.ridl")}, &Imp{Path: W("c.ridl"), Members: l}, &a)
					f["b.ridl"] = NewDoc(&b)
				case 2: // diamond
					f["a.ridl"] = NewDoc(&a, &Imp{Path: W("b.ridl")}, &Imp{Path: W("c.ridl"), Members: l})
					f["b.ridl"] = NewDoc(&Imp{Path: W("c.ridl")}, &b)
				case 3: // list on both edges
					f["a.ridl"] = NewDoc(&Imp{Path: W("b.ridl"), Members: l}, &a)
					f["b.ridl"] = NewDoc(&Imp{Path: W("c.ridl"), Members: l}, &b, &Struct{Name: "Bs"})
				}
				return f, "a.ridl"
			})
		},
	}
}

// p13Trees: JSON has no imports, but the merged form of files must be accepted alike.
func p13Trees(w *engine.W) *engine.Family {
	n := engine.Pick(w, 30, 120)
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("0..%d errors in a file and 0, 1 or 20 in its import, one clash or none", n),
		Run: func(x *engine.X, w *engine.W) {
			k := x.Choose(n + 1)
			in := []int{0, 1, 20}[x.Choose(3)]
			clash := x.Choose(3)
			runFiles(w, func() (Files, string) {
				a, b := NewDoc(&Imp{Path: W("b.ridl")}), NewDoc(&Struct{Name: "B"})
				for i := 0; i < k; i++ {
					a.Add(&Err{Code: fmt.Sprint(1 + i), Name: fmt.Sprintf("E%d", i), Msg: Q("m"), HTTP: fmt.Sprint(400 + i)})
				}
				for i := 0; i < in; i++ {
					e := &Err{Code: fmt.Sprint(1000 + i), Name: fmt.Sprintf("I%d", i), Msg: Q("m")}
					if i == in-1 {
						switch clash {
						case 1:
							e.Code = fmt.Sprint(k)
						case 2:
							e.Name = fmt.Sprintf("E%d", k-1)
						}
						if k == 0 {
							e.Code, e.Name = "1000000", "Last"
						}
					}
					b.Add(e)
				}
				return Files{"a.ridl": a, "b.ridl": b}, "a.ridl"
			})
		},
	}
}

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/webrpc/webrpc/schema"
	engine "verifengine"
)

func init() {
	register(&engine.Prop{
		ID:   "P10",
		Rule: "An execution applies one sequence of filter operations to a freshly parsed schema and compares the whole schema with the reference after every operation; a state is a distinct schema reached.",
		Assumptions: []string{
			"selecting services with an empty list of names asks for no selection and keeps all",
			"names of services and annotations are matched exactly; a blank value is one of spaces only",
		},
		Families: func(w *engine.W) []*engine.Family {
			return []*engine.Family{p10One(w), p10Values(w), p10Two(w), p10Masks(w), p10Services(), p10Ops(w), p10Many(w), p10Nil(), p10Near()}
		},
	})
}

// An op is one filter operation: kind 's' (services), 'm' (match) or 'i' (ignore).
type op struct {
	kind byte
	svcs []string
	ann  []KV
}

func (o op) String() string {
	switch o.kind {
	case 's':
		return fmt.Sprintf("MatchServices(%q)", o.svcs)
	case 'm':
		return fmt.Sprintf("MatchMethodsWithAnnotations(%q)", o.ann)
	}
	return fmt.Sprintf("IgnoreMethodsWithAnnotations(%q)", o.ann)
}

func opsString(ops []op) string {
	var ss []string
	for _, o := range ops {
		ss = append(ss, o.String())
	}
	return strings.Join(ss, ", ")
}

// ref is the reference semantics of the operation.
func (o op) ref(s *Sch) *Sch {
	r := *s
	if o.kind == 's' {
		if len(o.svcs) == 0 {
			return &r
		}
		r.Svcs = nil
		for _, v := range s.Svcs {
			for _, n := range o.svcs {
				if v.Name == n {
					r.Svcs = append(r.Svcs, v)
					break
				}
			}
		}
		return &r
	}
	r.Svcs = nil
	for _, v := range s.Svcs {
		c := v
		c.Methods = nil
		for _, m := range v.Methods {
			hit := false
			for _, q := range o.ann {
				for _, a := range m.Ann {
					if a.K == q.K && (strings.Trim(q.V, " ") == "" || a.V == q.V) {
						hit = true
					}
				}
			}
			if hit == (o.kind == 'm') {
				c.Methods = append(c.Methods, m)
			}
		}
		r.Svcs = append(r.Svcs, c)
	}
	return &r
}

// real runs the operation on the implementation.
func (o op) real(s *schema.WebRPCSchema) (*schema.WebRPCSchema, string) {
	if o.kind == 's' {
		arg := append([]string(nil), o.svcs...)
		out := schema.MatchServices(s, arg)
		if strings.Join(arg, "\x00") != strings.Join(o.svcs, "\x00") {
			return out, fmt.Sprintf("the list of names was changed to %q", arg)
		}
		return out, ""
	}
	arg := map[string]string{}
	for _, a := range o.ann {
		arg[a.K] = a.V
	}
	n := len(arg)
	var out *schema.WebRPCSchema
	if o.kind == 'm' {
		out = schema.MatchMethodsWithAnnotations(s, arg)
	} else {
		out = schema.IgnoreMethodsWithAnnotations(s, arg)
	}
	for _, a := range o.ann {
		if v, ok := arg[a.K]; !ok || v != a.V || len(arg) != n {
			return out, fmt.Sprintf("the requested annotations were changed to %q", arg)
		}
	}
	return out, ""
}

// fresh parses a document, as RIDL or as JSON; nil (with a failure recorded) when
// it is not accepted.
func fresh(w *engine.W, d *Doc, json bool) (*schema.WebRPCSchema, *Sch) {
	var s *schema.WebRPCSchema
	var err error
	if json {
		d = d.written()
		s, err = parseJSON(d.JSON(false))
	} else {
		s, err = parseText(d.RIDL())
	}
	want, ok := d.Expect()
	if !ok {
		w.Fail("harness", "the harness generated an invalid document")
		return nil, nil
	}
	if err != nil {
		w.Fail("rejected", "a valid document was rejected: %v", err)
		return nil, nil
	}
	return s, want
}

func same10(w *engine.W, s *schema.WebRPCSchema, want *Sch, what string) bool {
	w.Step(1)
	if s == nil {
		w.Fail("nil", "%s returned nil", what)
		return false
	}
	exp, got := want.String(), Real(s).String()
	w.State(exp)
	if exp != got {
		w.Fail("differs", "after %s the schema differs:\n%s", what, diff(exp, got))
		return false
	}
	return true
}

// applyOps runs a sequence of operations with the reference alongside.
func applyOps(w *engine.W, d *Doc, json bool, ops []op) {
	d = around(d)
	s, want := fresh(w, d, json)
	if s == nil || !same10(w, s, want, "parsing") {
		return
	}
	for i, o := range ops {
		out, msg := o.real(s)
		if msg != "" {
			w.Fail("argument", "%s: %s", o, msg)
			return
		}
		want = o.ref(want)
		if !same10(w, out, want, opsString(ops[:i+1])) {
			return
		}
		if out != s {
			// a copy is allowed, as long as the operations go on from it
			s = out
		}
	}
}

func annOf(kvs []KV) (out []Ann) {
	for _, e := range kvs {
		a := Ann{Name: e.K}
		if e.V != "" {
			a.Val = lp(Q(e.V))
		}
		out = append(out, a)
	}
	return
}

// maps are all maps over keys, each absent or with one of the values.
func annMaps(keys []string, vals []string) [][]KV {
	out := [][]KV{nil}
	for _, k := range keys {
		var next [][]KV
		for _, m := range out {
			next = append(next, m)
			for _, v := range vals {
				next = append(next, append(append([]KV(nil), m...), KV{k, v}))
			}
		}
		out = next
	}
	return out
}

func p10Doc(anns ...[]KV) *Doc {
	d := NewDoc(support()...)
	v := &Svc{Name: "A", Cm: Cm{Doc: []string{"the service"}}}
	for i, a := range anns {
		v.Methods = append(v.Methods, Method{Name: fmt.Sprintf("M%d", i), Ann: annOf(a), In: []Arg{{Name: "id", T: N("Id")}}, HasOut: true, Out: []Arg{{Name: "o", T: N("Item"), Opt: true}}, Errs: []string{"Base"}, Cm: Cm{Doc: []string{"the method"}}})
	}
	return d.Add(v)
}

// p10One: one method, one request of one annotation.
func p10One(w *engine.W) *engine.Family {
	vals := []string{"", "1", "2", "a b", " 1", "1 ", "10", "A", "a", "x", "@", ":", "1:2"}
	keys := []string{"x", "X", "xx", "y", "x.y", "x_1"}
	req := append([]string{" ", "  ", "0"}, vals...)
	have := annMaps([]string{"x"}, vals)
	words := wordValues
	return &engine.Family{
		Name: "one", Bound: fmt.Sprintf("a method with annotation x of %d values or none, %d requests of one annotation of %d names, match and ignore, RIDL and JSON; and each of %d words and numbers as name and as value, with requests for none, that and another", len(vals), len(req), len(keys), len(words)),
		Run: func(x *engine.X, w *engine.W) {
			var h []KV
			o := op{kind: "mi"[x.Choose(2)]}
			if i := x.Choose(len(have) + len(words)); i < len(have) {
				h = have[i]
				o.ann = []KV{{keys[x.Choose(len(keys))], req[x.Choose(len(req))]}}
			} else {
				n, v := "x", words[i-len(have)]
				if bareName(v) && v != "z" && x.Bool() {
					n = v
				}
				h = []KV{{n, v}}
				o.ann = []KV{{n, []string{"", v, "other", " "}[x.Choose(4)]}}
			}
			json := x.Bool()
			d := p10Doc(h, []KV{{"z", "1"}})
			if w.Mine(func() string { return d.RIDL() + o.String() }) {
				applyOps(w, d, json, []op{o})
			}
		},
	}
}

// p10Values: several annotations on both sides.
func p10Values(w *engine.W) *engine.Family {
	keys := []string{"x", "y", "z"}
	have := annMaps(keys, []string{"", "1", "2"})
	want := annMaps(keys, engine.Pick(w, []string{"", "1", "2"}, []string{"", "1", "2", " ", " 1"}))
	return &engine.Family{
		Name: "sets", Bound: fmt.Sprintf("all %d sets of annotations on a method with all %d requests, match and ignore", len(have), len(want)),
		Run: func(x *engine.X, w *engine.W) {
			h := have[x.Choose(len(have))]
			o := op{kind: "mi"[x.Choose(2)], ann: want[x.Choose(len(want))]}
			d := p10Doc(h)
			if w.Mine(func() string { return d.RIDL() + o.String() }) {
				applyOps(w, d, true, []op{o})
			}
		},
	}
}

// p10Two: three methods with every combination of annotation sets.
func p10Two(w *engine.W) *engine.Family {
	have := annMaps([]string{"x", "y"}, []string{"", "1", "2"})
	want := annMaps([]string{"x", "y"}, []string{"", "1"})
	return &engine.Family{
		Name: "methods", Bound: fmt.Sprintf("all triples of %d annotation sets on the methods of a service with all %d requests, match and ignore", len(have), len(want)),
		Run: func(x *engine.X, w *engine.W) {
			a, b, c := x.Choose(len(have)), x.Choose(len(have)), x.Choose(len(have))
			o := op{kind: "mi"[x.Choose(2)], ann: want[x.Choose(len(want))]}
			d := p10Doc(have[a], have[b], have[c])
			if w.Mine(func() string { return d.RIDL() + o.String() }) {
				applyOps(w, d, true, []op{o})
			}
		},
	}
}

// p10Masks: which of the methods of two services match, every pattern.
func p10Masks(w *engine.W) *engine.Family {
	n := engine.Pick(w, 6, 9)
	return &engine.Family{
		Name: "patterns", Bound: fmt.Sprintf("every pattern of annotated methods in services of 1..%d methods, before and after another service, match and ignore and match after ignore", n),
		Run: func(x *engine.X, w *engine.W) {
			k := 1 + x.Choose(n)
			mask := x.Choose(1 << k)
			first := x.Bool()
			kind := x.Choose(4)
			build := func() *Doc {
				v := &Svc{Name: "V"}
				for i := 0; i < k; i++ {
					m := Method{Name: fmt.Sprintf("M%d", i)}
					if mask>>i&1 == 1 {
						m.Ann = []Ann{{Name: "x"}}
					}
					v.Methods = append(v.Methods, m)
				}
				o := &Svc{Name: "O", Methods: []Method{{Name: "M0", Ann: []Ann{{Name: "x", Val: lp(W("1"))}}}, {Name: "M1"}}}
				if first {
					return NewDoc(v, o)
				}
				return NewDoc(o, v)
			}
			var ops []op
			switch kind {
			case 0, 1:
				ops = []op{{kind: "mi"[kind], ann: []KV{{"x", ""}}}}
			case 2:
				ops = []op{{kind: 'i', ann: []KV{{"x", ""}}}, {kind: 'm', ann: []KV{{"x", ""}}}}
			case 3:
				ops = []op{{kind: 'm', ann: []KV{{"x", ""}}}, {kind: 's', svcs: []string{"V"}}, {kind: 'i', ann: []KV{{"x", "1"}}}}
			}
			if w.Mine(func() string { return build().RIDL() + opsString(ops) }) {
				applyOps(w, build(), true, ops)
			}
		},
	}
}

// p10Services: all lists of names.
func p10Services() *engine.Family {
	names := []string{"Ab", "Abc", "B", "ab", "A", "", "Nope", " Ab", "Ab "}
	return &engine.Family{
		Name: "services", Bound: fmt.Sprintf("all lists of 0..4 names out of %d, on every order of 0..3 services, RIDL and JSON", len(names)),
		Run: func(x *engine.X, w *engine.W) {
			have := []string{"Ab", "Abc", "B"}
			d := NewDoc(support()...)
			for n := x.Choose(4); n > 0; n-- {
				i := x.Choose(len(have))
				d.Add(&Svc{Name: have[i], Methods: []Method{{Name: "M", In: []Arg{{Name: "x", T: N("Kind")}}}}})
				have = append(append([]string{}, have[:i]...), have[i+1:]...)
			}
			var list []string
			for n := x.Choose(5); n > 0; n-- {
				list = append(list, names[x.Choose(len(names))])
			}
			o := op{kind: 's', svcs: list}
			if w.Mine(func() string { return d.RIDL() + o.String() }) {
				applyOps(w, d, len(list)%2 == 0, []op{o})
			}
		},
	}
}

// p10Rich has three services whose methods carry every combination.
func p10Rich() *Doc {
	d := rich()
	i := 0
	for _, n := range []string{"Ping", "Pong", "Pang"} {
		v := &Svc{Name: n, Cm: Cm{Doc: []string{"doc " + n}}}
		for _, h := range annMaps([]string{"acl", "public"}, []string{"", "admin", "user"}) {
			if (i+len(v.Methods))%3 != 1 || n == "Ping" {
				v.Methods = append(v.Methods, Method{Name: fmt.Sprintf("M%d", i), Ann: annOf(h), In: []Arg{{Name: "a", T: N("Item")}}, HasOut: i%2 == 0, Cm: Cm{Doc: []string{fmt.Sprintf("m%d", i)}}})
			}
			i++
		}
		d.Add(v)
	}
	return d
}

func p10Alphabet() []op {
	var ops []op
	for _, l := range [][]string{nil, {"Ping"}, {"Pang", "Ping"}, {"Nope"}, {"ping", "Pong"}, {"Sv12", "Sv14", "Pang"}} {
		ops = append(ops, op{kind: 's', svcs: l})
	}
	for _, a := range [][]KV{nil, {{"acl", ""}}, {{"acl", "admin"}}, {{"acl", "user"}, {"public", "user"}}, {{"public", "  "}}, {{"acl", "nobody"}}, {{"Acl", ""}, {"public", "admin"}}} {
		ops = append(ops, op{kind: 'm', ann: a}, op{kind: 'i', ann: a})
	}
	return ops
}

// p10Ops explores every history of operations on a large schema.
func p10Ops(w *engine.W) *engine.Family {
	n := engine.Pick(w, 3, 4)
	ops := p10Alphabet()
	return &engine.Family{
		Name: "histories", Bound: fmt.Sprintf("all sequences of %d operations out of %d on a schema with every construct, from RIDL or JSON", n, len(ops)),
		Run: func(x *engine.X, w *engine.W) {
			var seq []op
			for i := 0; i < n; i++ {
				seq = append(seq, ops[x.Choose(len(ops))])
			}
			json := len(seq[0].svcs)%2 == 0
			if w.Mine(func() string { return opsString(seq) }) {
				applyOps(w, p10Rich(), json, seq)
			}
		},
	}
}

// p10Many sweeps sizes.
func p10Many(w *engine.W) *engine.Family {
	n := engine.Pick(w, 40, 150)
	return &engine.Family{
		Name: "sizes", Bound: fmt.Sprintf("1..%d annotations on a method, methods, services or requested annotations or names, the match at every place", n),
		Run: func(x *engine.X, w *engine.W) {
			kind := x.Choose(5)
			k := 1 + x.Choose(n)
			at := x.Choose(k)
			how := "mi"[x.Choose(2)]
			var o op
			build := func() *Doc {
				v := &Svc{Name: "V", Methods: []Method{{Name: "First"}, {Name: "Last", Ann: []Ann{{Name: "other"}}}}}
				d := NewDoc(v)
				o = op{kind: how, ann: []KV{{fmt.Sprintf("a%d", at), "v"}}}
				a := func(i int) Ann { return Ann{Name: fmt.Sprintf("a%d", i), Val: lp(W("v"))} }
				switch kind {
				case 0: // annotations
					for i := 0; i < k; i++ {
						v.Methods[0].Ann = append(v.Methods[0].Ann, a(i))
					}
				case 1: // methods
					for i := 0; i < k; i++ {
						v.Methods = append(v.Methods, Method{Name: fmt.Sprintf("M%d", i), Ann: []Ann{a(i)}})
					}
				case 2: // services
					for i := 0; i < k; i++ {
						d.Add(&Svc{Name: fmt.Sprintf("V%d", i), Methods: []Method{{Name: "M", Ann: []Ann{a(i)}}}})
					}
				case 3: // requested annotations
					o.ann = nil
					for i := 0; i < k; i++ {
						o.ann = append(o.ann, KV{fmt.Sprintf("a%d", i), "v"})
					}
					v.Methods[0].Ann = []Ann{a(at)}
				case 4: // requested names
					o = op{kind: 's'}
					for i := 0; i < k; i++ {
						o.svcs = append(o.svcs, fmt.Sprintf("V%d", i))
					}
					d.Add(&Svc{Name: fmt.Sprintf("V%d", at), Methods: []Method{{Name: "M"}}}, &Svc{Name: fmt.Sprintf("V%d", k), Methods: []Method{{Name: "M"}}})
				}
				return d
			}
			if w.Mine(func() string { return build().RIDL() + o.String() }) {
				applyOps(w, build(), true, []op{o})
			}
		},
	}
}

func p10Nil() *engine.Family {
	return &engine.Family{
		Name: "nil", Bound: "each operation of the alphabet on a nil schema and on schemas without services",
		Run: func(x *engine.X, w *engine.W) {
			ops := p10Alphabet()
			o := ops[x.Choose(len(ops))]
			kind := x.Choose(3)
			if !w.Mine(func() string { return fmt.Sprintf("%s on %s", o, []string{"nil", "no services", "types only"}[kind]) }) {
				return
			}
			switch kind {
			case 0:
				if out, _ := o.real(nil); out != nil {
					w.Fail("nil", "%s on nil returned a schema", o)
				}
			case 1:
				applyOps(w, NewDoc(), false, []op{o})
			case 2:
				applyOps(w, NewDoc(support()...), true, []op{o, o})
			}
		},
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

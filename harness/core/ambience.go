package main

import (
	"fmt"
	"slices"
	"strings"

	engine "verifengine"
)

// What a property says about one attribute must not depend on the others: on
// whether fields are optional, methods stream or carry annotations, or what
// else a document defines.  The families listed in ambient run once as they
// are and once more in each of these ambiences, which change every document
// that they build; the reference model judges the changed document.
var ambiences = []string{
	"a comment above and at the end of every line",
	"all fields and arguments the other way around optional",
	"metadata before and after that of each field and alias",
	"an annotation, an error and the other kind of streaming on each method",
	"other definitions of every kind before and after",
	"definitions in reverse order",
	"names renamed: each but the last is a prefix of the next",
	"names renamed: each is a prefix of the one before",
	"names renamed: long, different in the middle only",
	"the first six together",
}

var ambience = 0 // 0: none

// ambientFile tells the files of one case apart.
var ambientFile = 0

// ambient lists the families by property; their documents all go through
// runBoth, run or runFiles; a star keeps a family to the thorough tier.
var ambient = map[string][]string{
	"P04": {"keywords", "clash", "clash-words", "clash-far", "scopes"},
	"P05": {"shadow", "alias-graphs*", "nesting"},
	"P08": {"members-twice*", "members-many", "same-names", "members-near", "alike", "places", "chains", "fans", "headers*"},
	"P10": {"patterns", "histories", "sizes", "one*", "sets*"},
	"P11": {"kinds*", "uses", "services", "sizes*", "structs*"},
	"P12": {"kinds", "methods*", "sizes", "order", "graphs*"},
	"P13": {"status", "reserved", "names", "messages", "duplicates", "far", "defaults", "imports", "sizes"},
	"P14": {"one", "methods", "forms", "declared", "names", "sizes", "imports", "far"},
	"P15": {"need", "repeated"},
	"P16": {"members", "types", "sizes", "several", "imports"},
	"P25": {"arguments", "methods", "succinct-names", "succinct-kinds", "names*", "counts", "types"},
	"P26": {"one-method", "methods", "counts", "forms"},
	"P27": {"entries", "json-names", "clashes*", "clash-words", "distance", "many", "counts", "imports*"},
}

// amid is a family in every ambience.
func amid(f *engine.Family) *engine.Family {
	g := *f
	g.Name = f.Name + " amid"
	g.Bound = fmt.Sprintf("%s; in %d ambiences", f.Bound, len(ambiences))
	g.Run = func(x *engine.X, w *engine.W) {
		ambience = 1 + x.Choose(len(ambiences))
		defer func() { ambience = 0 }()
		f.Run(x, w)
	}
	return &g
}

func withAmbience(p *engine.Prop) {
	families := p.Families
	p.Families = func(w *engine.W) []*engine.Family {
		fams := families(w)
		for _, f := range fams[:len(fams):len(fams)] {
			for _, n := range ambient[p.ID] {
				if f.Name == n || f.Name+"*" == n && engine.Pick(w, 0, 1) == 1 {
					fams = append(fams, amid(f))
				}
			}
		}
		return fams
	}
}

// around is the document in the current ambience.
func around(d *Doc) *Doc {
	if ambience == 0 {
		return d
	}
	if renames() {
		return renamed(d, ambience)
	}
	on := func(k int) bool { return ambience == k || ambience == len(ambiences) }
	c := *d
	c.Items = nil
	cm := func(cm *Cm, what string) {
		if !on(1) {
			return
		}
		cm.Doc = append([]string{"about " + what}, cm.Doc...)
		if cm.Trail == nil {
			cm.Trail = str("the end of " + what)
		}
	}
	meta := func(ms []Meta) []Meta {
		if !on(3) {
			return ms
		}
		out := append([]Meta{{Key: "ambient.before", Val: W("x")}}, ms...)
		return append(out, Meta{Key: "ambient", Val: Q("an after, json = a")})
	}
	args := func(as []Arg) []Arg {
		out := append([]Arg(nil), as...)
		for i := range out {
			out[i].Opt = out[i].Opt != on(2)
		}
		return out
	}
	ambErr := fmt.Sprintf("AmbientError%d", ambientFile)
	front, services, version := 0, false, false
	for _, it := range d.Items {
		switch v := it.(type) {
		case *Head:
			front = len(c.Items) + 1
			version = version || v.Key == "version"
		case *Imp:
			front = len(c.Items) + 1
		case *Alias:
			n := *v
			n.Meta = meta(v.Meta)
			cm(&n.Cm, v.Name)
			it = &n
		case *Enum:
			n := *v
			n.Mem = append([]Member(nil), v.Mem...)
			cm(&n.Cm, v.Name)
			for i := range n.Mem {
				cm(&n.Mem[i].Cm, n.Mem[i].Name)
			}
			it = &n
		case *Struct:
			n := *v
			n.Fields = append([]Field(nil), v.Fields...)
			cm(&n.Cm, v.Name)
			for i := range n.Fields {
				f := &n.Fields[i]
				f.Opt = f.Opt != on(2)
				f.Meta = meta(f.Meta)
				cm(&f.Cm, f.Name)
			}
			it = &n
		case *Err:
			n := *v
			cm(&n.Cm, v.Name)
			it = &n
		case *Svc:
			n := *v
			n.Methods = append([]Method(nil), v.Methods...)
			cm(&n.Cm, v.Name)
			for i := range n.Methods {
				m := &n.Methods[i]
				cm(&m.Cm, m.Name)
				m.In, m.Out = args(m.In), args(m.Out)
				if on(4) {
					m.Ann = append([]Ann{{Name: "ambient", Val: lp(Q("x @y"))}}, m.Ann...)
					if !m.Proxy {
						m.SIn = !m.SIn
						m.Errs = append(append([]string(nil), m.Errs...), ambErr)
						if m.HasOut {
							m.SOut = !m.SOut
						}
					}
				}
			}
			services = true
			it = &n
		}
		c.Items = append(c.Items, it)
	}
	if front > len(c.Items) {
		front = len(c.Items)
	}
	if on(6) {
		// what is no header nor import, in reverse
		var at []int
		for i, it := range c.Items {
			switch it.(type) {
			case *Head, *Imp:
			default:
				at = append(at, i)
			}
		}
		for i, j := 0, len(at)-1; i < j; i, j = i+1, j-1 {
			c.Items[at[i]], c.Items[at[j]] = c.Items[at[j]], c.Items[at[i]]
		}
	}
	if on(4) && services {
		c.Add(&Err{Code: fmt.Sprint(876543 + ambientFile), Name: ambErr, Msg: Q("of the ambience"), HTTP: "555"})
	}
	if on(5) {
		others := func(p string, code int) []any {
			out := []any{
				&Struct{Name: p + "St", Fields: []Field{{Name: "z", T: L(N(p + "En"))}, {Name: "y", T: N("string"), Opt: true, Meta: []Meta{{Key: "json", Val: W("yy")}}}}},
				&Enum{Name: p + "En", T: "int8", Mem: []Member{{Name: "Z"}, {Name: "Y", Val: lp(W("9"))}}},
				&Alias{Name: p + "Al", T: M(p+"En", N(p+"St"))},
				&Err{Code: fmt.Sprint(code), Name: p + "Er", Msg: Q(p)},
			}
			if version {
				out = append(out, &Svc{Name: p + "Sv", Methods: []Method{{Name: "Amb", Ann: []Ann{{Name: "amb"}}, In: []Arg{{Name: "z", T: N(p + "Al")}}, HasOut: true, Succ: "", Errs: []string{p + "Er"}}, {Name: "Bma", Succ: p + "St", HasOut: true, SuccOut: p + "St", SOut: true}}})
			}
			return out
		}
		rest := append([]any(nil), c.Items[front:]...)
		c.Items = append(c.Items[:front:front], others(fmt.Sprintf("Ambx%d", ambientFile), 765000+ambientFile)...)
		c.Items = append(c.Items, rest...)
		c.Add(others(fmt.Sprintf("Amby%d", ambientFile), 766000+ambientFile)...)
	}
	return &c
}

func renames() bool { return ambience >= 7 && ambience <= 9 }

// renamed is the document with its types, errors, methods, fields, arguments
// and members called qz, qz1, qz11 and so on, or the other way around.
func renamed(d *Doc, how int) *Doc {
	type space struct {
		order []string
		first map[string]string // lower case: as first written
	}
	spaces := map[string]*space{}
	add := func(kind, n string) {
		sp := spaces[kind]
		if sp == nil {
			sp = &space{first: map[string]string{}}
			spaces[kind] = sp
		}
		l := strings.ToLower(n)
		if _, ok := sp.first[l]; !ok && n != "" {
			sp.first[l] = n
			sp.order = append(sp.order, l)
		}
	}
	for _, it := range d.Items {
		switch v := it.(type) {
		case *Alias:
			add("type", v.Name)
		case *Enum:
			add("type", v.Name)
			for _, m := range v.Mem {
				add("member", m.Name)
			}
		case *Struct:
			add("type", v.Name)
			for _, f := range v.Fields {
				add("field", f.Name)
			}
		case *Err:
			add("error", v.Name)
		case *Svc:
			for _, m := range v.Methods {
				add("method", m.Name)
				for _, a := range append(append([]Arg(nil), m.In...), m.Out...) {
					add("arg", a.Name)
				}
			}
		}
	}
	rename := func(kind, n string) string {
		sp := spaces[kind]
		if sp == nil || !fieldNameOK(n) || isCore[n] || strings.HasPrefix(strings.ToLower(n), "webrpc") {
			return n
		}
		first, ok := sp.first[strings.ToLower(n)]
		if !ok || kind == "type" && isCore[strings.ToLower(first)] {
			return n
		}
		i := slices.Index(sp.order, strings.ToLower(n))
		if how == 8 {
			i = len(sp.order) - 1 - i
		}
		out := "qz" + strings.Repeat("1", i)
		if len(sp.order) > 30 {
			out = fmt.Sprintf("qz%d", i)
		}
		if how == 9 {
			out = fmt.Sprintf("qz%s%d%s", strings.Repeat("a", 99), i, strings.Repeat("b", 99))
		}
		if n[0] >= 'A' && n[0] <= 'Z' && kind != "method" {
			out = "Q" + out[1:]
		}
		if n != first { // equal up to case
			out = strings.Replace(out, "z", "Z", 1)
		}
		return out
	}
	var te func(t *TE) *TE
	te = func(t *TE) *TE {
		if t == nil {
			return nil
		}
		c := *t
		c.Name = rename("type", t.Name)
		c.Elem, c.Key = te(t.Elem), te(t.Key)
		return &c
	}
	args := func(as []Arg) []Arg {
		out := append([]Arg(nil), as...)
		for i := range out {
			out[i].Name, out[i].T = rename("arg", out[i].Name), te(out[i].T)
		}
		return out
	}
	c := *d
	c.Items = nil
	for _, it := range d.Items {
		switch v := it.(type) {
		case *Alias:
			n := *v
			n.Name, n.T = rename("type", v.Name), te(v.T)
			it = &n
		case *Enum:
			n := *v
			n.Name, n.T = rename("type", v.Name), rename("type", v.T)
			n.Mem = append([]Member(nil), v.Mem...)
			for i := range n.Mem {
				n.Mem[i].Name = rename("member", n.Mem[i].Name)
			}
			it = &n
		case *Struct:
			n := *v
			n.Name = rename("type", v.Name)
			n.Fields = append([]Field(nil), v.Fields...)
			for i := range n.Fields {
				n.Fields[i].Name, n.Fields[i].T = rename("field", n.Fields[i].Name), te(n.Fields[i].T)
			}
			it = &n
		case *Err:
			n := *v
			n.Name = rename("error", v.Name)
			it = &n
		case *Svc:
			n := *v
			n.Methods = append([]Method(nil), v.Methods...)
			for i := range n.Methods {
				m := &n.Methods[i]
				m.Name = rename("method", m.Name)
				m.In, m.Out = args(m.In), args(m.Out)
				m.Succ, m.SuccOut = rename("type", m.Succ), rename("type", m.SuccOut)
				m.Errs = append([]string(nil), m.Errs...)
				for j := range m.Errs {
					m.Errs[j] = rename("error", m.Errs[j])
				}
			}
			it = &n
		}
		c.Items = append(c.Items, it)
	}
	if d.Keep != nil {
		c.Keep = map[string]bool{}
		for n, k := range d.Keep {
			c.Keep[rename("type", n)] = k
		}
	}
	return &c
}

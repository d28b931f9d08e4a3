package main

import (
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- documents
// A Doc is an abstract RIDL document. It can be rendered as RIDL text in many
// layouts, or as a JSON schema, and the reference model gives the schema that
// either must yield. Nothing here uses the code under test.

// TE is a type expression: a name, a list or a map.
type TE struct {
	Name string // core type or declared type, when Elem is nil
	Key  *TE    // map key
	Elem *TE    // list element or map value
}

func N(name string) *TE     { return &TE{Name: name} }
func L(e *TE) *TE           { return &TE{Elem: e} }
func M(k string, v *TE) *TE { return &TE{Key: N(k), Elem: v} }
func MX(k *TE, v *TE) *TE   { return &TE{Key: k, Elem: v} }
func (t *TE) IsList() bool  { return t.Elem != nil && t.Key == nil }
func (t *TE) IsMap() bool   { return t.Elem != nil && t.Key != nil }
func (t *TE) IsName() bool  { return t.Elem == nil }
func (t *TE) names() []string {
	switch {
	case t == nil:
		return nil
	case t.IsList():
		return t.Elem.names()
	case t.IsMap():
		return append(t.Key.names(), t.Elem.names()...)
	}
	return []string{t.Name}
}

func (t *TE) Expr() string {
	switch {
	case t.IsList():
		return "[]" + t.Elem.Expr()
	case t.IsMap():
		return "map<" + t.Key.Expr() + "," + t.Elem.Expr() + ">"
	}
	return t.Name
}

// Lit is a literal value; Q says that it is written in quotes.
type Lit struct {
	V string
	Q bool
}

func W(s string) Lit { return Lit{V: s} }
func Q(s string) Lit { return Lit{V: s, Q: true} }

type Cm struct {
	Doc   []string // comment lines directly above
	Trail *string  // comment at the end of the line
	Far   []string // comment lines above, but separated by a blank line
}

type Meta struct {
	Key string
	Val Lit
	Cm
}

type Alias struct {
	Name string
	T    *TE
	Meta []Meta
	Cm
}

type Member struct {
	Name string
	Val  *Lit
	Cm
}

type Enum struct {
	Name string
	T    string
	Mem  []Member
	Cm
}

type Field struct {
	Name string
	T    *TE
	Opt  bool
	Meta []Meta
	Cm
}

type Struct struct {
	Name   string
	Fields []Field
	Cm
}

type Err struct {
	Code string // as written
	Name string
	Msg  Lit
	HTTP string // as written, "" when omitted
	Cm
}

type Arg struct {
	Name string
	T    *TE
	Opt  bool
}

type Ann struct {
	Name string
	Val  *Lit
	NL   bool // starts a new line (the first always does)
}

type Method struct {
	Name      string
	Ann       []Ann
	In, Out   []Arg
	Succ      string // succinct input struct; then SuccOut is the output
	SuccOut   string
	HasOut    bool // "=> (...)" is written
	Proxy     bool // written "proxy Name", with nothing else
	SIn, SOut bool
	Errs      []string
	Cm
}

type Svc struct {
	Name    string
	Methods []Method
	Cm
}

type Head struct {
	Key string
	Val Lit
	Cm
}

type Imp struct {
	Path    Lit
	Members []string
	InList  bool // one line of a list of imports
	Cm
}

// Doc is a document: its definitions in the order written.
type Doc struct {
	Items   []any           // *Head *Imp *Alias *Enum *Struct *Err *Svc
	Written bool            // types stay in the order written (JSON)
	Keep    map[string]bool // when set, only these types remain
}

func (d *Doc) Add(items ...any) *Doc { d.Items = append(d.Items, items...); return d }

// NewDoc is a document with the usual headers.
func NewDoc(items ...any) *Doc {
	d := &Doc{}
	d.Add(&Head{Key: "webrpc", Val: W("v1")}, &Head{Key: "name", Val: W("test")}, &Head{Key: "version", Val: W("v1.0.0")})
	return d.Add(items...)
}

// ---------------------------------------------------------------- reference

type KV struct{ K, V string }

type RField struct {
	Name, T, Value string
	Opt            bool
	Meta           []KV
	Doc            []string
}

type RType struct {
	Kind, Name, T string
	Meta          []KV
	Doc           []string
	Fields        []RField
}

type RArg struct {
	Name, T string
	Opt     bool
}

type RMethod struct {
	Name            string
	Ann             []KV
	Doc             []string
	Succ, SIn, SOut bool
	In, Out         []RArg
	Errs            []string
}

type RSvc struct {
	Name    string
	Doc     []string
	Methods []RMethod
}

type RErr struct {
	Code, HTTP int
	Name, Msg  string
}

// Sch is a schema in comparable form.
type Sch struct {
	Webrpc, Name, Version, Base string
	Types                       []RType
	Errs                        []RErr
	Svcs                        []RSvc
}

type sb struct{ strings.Builder }

func (b *sb) q(k, v string) {
	b.WriteString(" ")
	b.WriteString(k)
	b.WriteString("=")
	b.WriteString(strconv.Quote(v))
}
func (b *sb) list(k string, v []string) {
	if len(v) == 0 {
		return
	}
	b.WriteString(" ")
	b.WriteString(k)
	b.WriteString("=[")
	for i, s := range v {
		if i > 0 {
			b.WriteString(" ")
		}
		b.WriteString(strconv.Quote(s))
	}
	b.WriteString("]")
}
func (b *sb) kvs(k string, v []KV) {
	for _, e := range v {
		b.WriteString(" ")
		b.WriteString(k)
		b.WriteString("{")
		b.WriteString(strconv.Quote(e.K))
		b.WriteString(":")
		b.WriteString(strconv.Quote(e.V))
		b.WriteString("}")
	}
}
func (b *sb) flag(k string, v bool) {
	if v {
		b.WriteString(" ")
		b.WriteString(k)
	}
}
func (b *sb) num(k string, v int) {
	b.WriteString(" ")
	b.WriteString(k)
	b.WriteString("=")
	b.WriteString(strconv.Itoa(v))
}

// String dumps the schema, one line per definition part.
func (s *Sch) String() string { return s.dump(true) }

// NoDocs dumps the schema without doc comments.
func (s *Sch) NoDocs() string { return s.dump(false) }

func (s *Sch) dump(docs bool) string {
	b := &sb{}
	doc := func(d []string) {
		if docs {
			b.list("doc", d)
		}
	}
	b.WriteString("schema")
	b.q("webrpc", s.Webrpc)
	b.q("name", s.Name)
	b.q("version", s.Version)
	b.q("basepath", s.Base)
	for i := range s.Types {
		t := &s.Types[i]
		b.WriteString("\ntype ")
		b.WriteString(t.Kind)
		b.q("name", t.Name)
		if t.T != "" {
			b.WriteString(" ")
			b.WriteString(t.T)
		}
		b.kvs("meta", t.Meta)
		doc(t.Doc)
		for j := range t.Fields {
			f := &t.Fields[j]
			b.WriteString("\n  field")
			b.q("name", f.Name)
			if f.T != "" {
				b.WriteString(" ")
				b.WriteString(f.T)
			}
			if f.Value != "" {
				b.q("value", f.Value)
			}
			b.flag("optional", f.Opt)
			b.kvs("meta", f.Meta)
			doc(f.Doc)
		}
	}
	for i := range s.Errs {
		e := &s.Errs[i]
		b.WriteString("\nerror")
		b.num("code", e.Code)
		b.q("name", e.Name)
		b.q("msg", e.Msg)
		b.num("http", e.HTTP)
	}
	for i := range s.Svcs {
		v := &s.Svcs[i]
		b.WriteString("\nservice")
		b.q("name", v.Name)
		doc(v.Doc)
		for j := range v.Methods {
			m := &v.Methods[j]
			b.WriteString("\n  method")
			b.q("name", m.Name)
			b.flag("succinct", m.Succ)
			b.flag("streamin", m.SIn)
			b.flag("streamout", m.SOut)
			b.kvs("ann", m.Ann)
			b.list("errors", m.Errs)
			doc(m.Doc)
			arg := func(k string, a *RArg) {
				b.WriteString("\n    ")
				b.WriteString(k)
				b.q("name", a.Name)
				b.WriteString(" ")
				b.WriteString(a.T)
				b.flag("optional", a.Opt)
			}
			for k := range m.In {
				arg("in", &m.In[k])
			}
			for k := range m.Out {
				arg("out", &m.Out[k])
			}
		}
	}
	return b.String()
}

// coreTypes are the built-in types of the language.
var coreTypes = []string{
	"null", "any", "byte", "bool",
	"uint", "uint8", "uint16", "uint32", "uint64",
	"int", "int8", "int16", "int32", "int64",
	"bigint", "float32", "float64", "string", "timestamp",
}

var isCore = func() map[string]bool {
	m := map[string]bool{}
	for _, c := range coreTypes {
		m[c] = true
	}
	return m
}()

var intTypes = []string{"uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64"}

var isInt = func() map[string]bool {
	m := map[string]bool{}
	for _, c := range intTypes {
		m[c] = true
	}
	return m
}()

// env is what names mean in one file.
type env struct {
	kind  map[string]string // struct, enum, alias
	index map[string]int
	alias map[string]*TE
}

// tree gives the resolved structure of an expression, or false when it does not
// resolve.
func (t *TE) tree(e *env) (string, bool) {
	switch {
	case t.IsList():
		in, ok := t.Elem.tree(e)
		return "list<" + t.Expr() + ">(" + in + ")", ok
	case t.IsMap():
		if !t.Key.IsName() {
			return "", false
		}
		k := t.Key.Name
		key := ""
		switch {
		case k == "string" || isInt[k]:
			key = "core " + k
		case e.kind[k] == "enum":
			key = "ref " + k + e.at(k)
		case e.kind[k] == "alias" && e.alias[k].IsName() && e.kind[e.alias[k].Name] == "enum":
			key = "ref " + k + e.at(k)
		default:
			return "", false
		}
		in, ok := t.Elem.tree(e)
		return "map<" + t.Expr() + ">(" + key + "," + in + ")", ok
	case isCore[t.Name]:
		return t.Name, true
	}
	kind, ok := e.kind[t.Name]
	if !ok {
		return "", false
	}
	return kind + " " + t.Name + e.at(t.Name), true
}

func docLines(c *Cm) []string {
	var out []string
	add := func(l string) {
		l = strings.TrimLeft(l, "# \t\r")
		l = strings.Join(strings.FieldsFunc(l, func(r rune) bool { return r == ' ' || r == '\t' || r == '\r' }), " ")
		if !strings.HasPrefix(l, "!") {
			out = append(out, l)
		}
	}
	for _, l := range c.Doc {
		add(l)
	}
	if c.Trail != nil {
		add(*c.Trail)
	}
	if strings.Join(out, "\n") == "" {
		return nil
	}
	return out
}

func kvOf(ms []Meta, ok *bool) []KV {
	var out []KV
	for _, m := range ms {
		if m.Val.V == "" {
			*ok = false // not representable
		}
		out = append(out, KV{m.Key, m.Val.V})
	}
	return out
}

// imported is what a file sees of its imports.
type imported struct {
	Types []any // *Alias *Enum *Struct
	Errs  []*Err
	Svcs  []*Svc
}

// Expect is the schema a document must yield, or false when the document must be
// rejected.
func (d *Doc) Expect(imps ...*imported) (*Sch, bool) {
	var types []any
	var errs []*Err
	var svcs []*Svc
	for _, im := range imps {
		types = append(types, im.Types...)
		errs = append(errs, im.Errs...)
		svcs = append(svcs, im.Svcs...)
	}
	s := &Sch{}
	ok := true
	seen := map[string]bool{}
	for _, it := range d.Items {
		if h, is := it.(*Head); is {
			if seen[h.Key] {
				ok = false
			}
			seen[h.Key] = true
			if h.Val.V == "" {
				ok = false
			}
			switch h.Key {
			case "webrpc":
				s.Webrpc = h.Val.V
			case "name":
				s.Name = h.Val.V
			case "version":
				s.Version = h.Val.V
			case "basepath":
				s.Base = h.Val.V
			}
		}
	}
	if d.Written {
		for _, it := range d.Items {
			switch it.(type) {
			case *Alias, *Enum, *Struct:
				types = append(types, it)
			}
		}
	}
	for _, it := range d.Items {
		if a, is := it.(*Alias); is && !d.Written {
			types = append(types, a)
		}
	}
	for _, it := range d.Items {
		if a, is := it.(*Enum); is && !d.Written {
			types = append(types, a)
		}
	}
	for _, it := range d.Items {
		if a, is := it.(*Struct); is && !d.Written {
			types = append(types, a)
		}
	}
	for _, it := range d.Items {
		switch v := it.(type) {
		case *Err:
			errs = append(errs, v)
		case *Svc:
			svcs = append(svcs, v)
		}
	}
	e := &env{kind: map[string]string{}, index: map[string]int{}, alias: map[string]*TE{}}
	lower := map[string]bool{}
	for i, t := range types {
		name, kind := "", ""
		switch v := t.(type) {
		case *Alias:
			name, kind = v.Name, "alias"
			e.alias[name] = v.T
		case *Enum:
			name, kind = v.Name, "enum"
		case *Struct:
			name, kind = v.Name, "struct"
		}
		if !typeNameOK(name) || lower[strings.ToLower(name)] {
			ok = false
		}
		lower[strings.ToLower(name)] = true
		e.kind[name], e.index[name] = kind, i
	}
	if d.Keep != nil {
		i := 0
		for _, t := range types {
			if name := typeName(t); d.Keep[name] {
				e.index[name] = i
				i++
			} else {
				e.index[name] = -1
			}
		}
	}
	res := func(t *TE) string {
		s, good := t.tree(e)
		ok = ok && good
		return s
	}
	for _, t := range types {
		if d.Keep != nil && !d.Keep[typeName(t)] {
			continue
		}
		switch v := t.(type) {
		case *Alias:
			s.Types = append(s.Types, RType{Kind: "alias", Name: v.Name, T: res(v.T), Meta: kvOf(v.Meta, &ok), Doc: docLines(&v.Cm)})
		case *Enum:
			r := RType{Kind: "enum", Name: v.Name, T: v.T}
			if v.T != "string" && !isInt[v.T] {
				ok = false
			}
			names := map[string]bool{}
			for i, m := range v.Mem {
				val := strconv.Itoa(i)
				if v.T == "string" {
					val = m.Name
				}
				if m.Val != nil {
					val = m.Val.V
					if val == "" {
						ok = false
					}
				}
				if !fieldNameOK(m.Name) || names[strings.ToLower(m.Name)] {
					ok = false
				}
				names[strings.ToLower(m.Name)] = true
				r.Fields = append(r.Fields, RField{Name: m.Name, Value: val, Doc: docLines(&m.Cm)})
			}
			s.Types = append(s.Types, r)
		case *Struct:
			r := RType{Kind: "struct", Name: v.Name, Doc: docLines(&v.Cm)}
			names, jsons := map[string]bool{}, map[string]bool{}
			for _, f := range v.Fields {
				if !fieldNameOK(f.Name) || names[strings.ToLower(f.Name)] {
					ok = false
				}
				names[strings.ToLower(f.Name)] = true
				json := f.Name
				for _, m := range f.Meta {
					if m.Key == "json" && m.Val.V != "-" {
						if !fieldNameOK(m.Val.V) {
							ok = false
						}
						json = m.Val.V
					}
				}
				if jsons[strings.ToLower(json)] {
					ok = false
				}
				jsons[strings.ToLower(json)] = true
				r.Fields = append(r.Fields, RField{Name: f.Name, T: res(f.T), Opt: f.Opt, Meta: kvOf(f.Meta, &ok), Doc: docLines(&f.Cm)})
			}
			s.Types = append(s.Types, r)
		}
	}
	codes, enames := map[int]bool{}, map[string]bool{}
	exact := map[string]bool{}
	for _, v := range errs {
		r := RErr{Name: v.Name, Msg: v.Msg.V, HTTP: 400}
		code, err := strconv.ParseInt(v.Code, 10, 64)
		if err != nil || code <= 0 || code > 1<<31-1 {
			ok = false
		}
		r.Code = int(code)
		if v.HTTP != "" {
			h, err := strconv.ParseInt(v.HTTP, 10, 64)
			if err != nil {
				ok = false
			}
			r.HTTP = int(h)
		}
		if r.HTTP < 400 || r.HTTP > 599 || r.Msg == "" || !errNameOK(r.Name) || codes[r.Code] || enames[strings.ToLower(r.Name)] {
			ok = false
		}
		codes[r.Code], enames[strings.ToLower(r.Name)], exact[r.Name] = true, true, true
		s.Errs = append(s.Errs, r)
	}
	snames := map[string]bool{}
	for _, v := range svcs {
		r := RSvc{Name: v.Name, Doc: docLines(&v.Cm)}
		if v.Name == "" || snames[strings.ToLower(v.Name)] || len(v.Methods) == 0 {
			ok = false
		}
		snames[strings.ToLower(v.Name)] = true
		mnames := map[string]bool{}
		for _, m := range v.Methods {
			if m.Name == "" || mnames[strings.ToLower(m.Name)] {
				ok = false
			}
			mnames[strings.ToLower(m.Name)] = true
			rm := RMethod{Name: m.Name, SIn: m.SIn, SOut: m.SOut, Errs: m.Errs, Doc: docLines(&m.Cm)}
			anns := map[string]bool{}
			for _, a := range m.Ann {
				if anns[a.Name] {
					ok = false
				}
				anns[a.Name] = true
				kv := KV{K: a.Name}
				if a.Val != nil {
					kv.V = a.Val.V
					if kv.V == "" {
						ok = false
					}
				}
				rm.Ann = append(rm.Ann, kv)
			}
			sort.Slice(rm.Ann, func(i, j int) bool { return rm.Ann[i].K < rm.Ann[j].K })
			side := func(succ string, args []Arg) []RArg {
				var out []RArg
				if succ != "" {
					if e.kind[succ] != "struct" {
						ok = false
					}
					return append(out, RArg{Name: lowerFirst(succ), T: res(N(succ))})
				}
				for _, a := range args {
					if a.Name == "" {
						ok = false
					}
					out = append(out, RArg{Name: a.Name, T: res(a.T), Opt: a.Opt})
				}
				return out
			}
			rm.In = side(m.Succ, m.In)
			if m.HasOut {
				rm.Out = side(m.SuccOut, m.Out)
			}
			if (m.Succ != "") != (m.SuccOut != "" && m.HasOut) {
				ok = false
			}
			rm.Succ = m.Succ != ""
			for _, n := range m.Errs {
				if !exact[n] {
					ok = false
				}
			}
			r.Methods = append(r.Methods, rm)
		}
		s.Svcs = append(s.Svcs, r)
	}
	if s.Webrpc != "v1" || (len(svcs) > 0 && s.Version == "") {
		ok = false
	}
	base, good := basePath(s.Base)
	s.Base, ok = base, ok && good
	return s, ok
}

func (e *env) at(name string) string {
	if i := e.index[name]; i >= 0 {
		return "#" + strconv.Itoa(i)
	}
	return "#not-in-schema"
}

func typeName(t any) string {
	switch v := t.(type) {
	case *Alias:
		return v.Name
	case *Enum:
		return v.Name
	case *Struct:
		return v.Name
	}
	return ""
}

func lowerFirst(s string) string {
	r := []rune(s)
	return strings.ToLower(string(r[0])) + string(r[1:])
}

func asciiLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

// fieldNameOK is the rule for field and JSON names.
func fieldNameOK(s string) bool {
	if s == "" || !asciiLetter(s[0]) {
		return false
	}
	for i := 0; i < len(s); i++ {
		if c := s[i]; !(asciiLetter(c) || c >= '0' && c <= '9' || c == '_') {
			return false
		}
	}
	return true
}

func typeNameOK(s string) bool {
	for _, r := range s {
		return unicode.IsUpper(r)
	}
	return false
}

func errNameOK(s string) bool {
	return typeNameOK(s) && !strings.HasPrefix(strings.ToLower(s), "webrpc")
}

// basePath is the normal form of a base path, or false when it must be rejected.
func basePath(s string) (string, bool) {
	if s == "" {
		return "", true
	}
	if strings.ContainsAny(s, " \t\r\n?#") || strings.Contains(s, "://") {
		return s, false
	}
	p := s
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	for i := 0; i < len(p); i++ {
		c := p[i]
		if c < 0x20 || c == 0x7f {
			return s, false
		}
		if c == '%' && (i+2 >= len(p) || !isHex(p[i+1]) || !isHex(p[i+2])) {
			return s, false
		}
	}
	if !strings.HasSuffix(p, "/") {
		p += "/"
	}
	return p, true
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

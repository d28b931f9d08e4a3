package main

import (
	"reflect"
	"strings"
)

// Mutations of abstract documents: every string, flag, list and type expression
// of a document is a site; each site has a fixed list of edits.

type mutator struct {
	want int // number of the edit to apply, -1 to only count
	n    int
	done bool
}

func (m *mutator) edit(apply func()) {
	if m.n == m.want {
		apply()
		m.done = true
	}
	m.n++
}

// mutate applies the k-th edit of the document (a fresh copy); the second result
// is the number of edits of this document.
func mutate(d *Doc, k int) int {
	m := &mutator{want: k}
	m.walk(reflect.ValueOf(&d.Items).Elem(), "")
	return m.n
}

var (
	teType  = reflect.TypeOf(&TE{})
	litType = reflect.TypeOf(Lit{})
)

func swapCase(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z':
			return r - 32
		case r >= 'A' && r <= 'Z':
			return r + 32
		}
		return r
	}, s)
}

func (m *mutator) str(v reflect.Value, field string) {
	old := v.String()
	alts := []string{old + "x", swapCase(old), "Item", "id", "x"}
	switch field {
	case "Code":
		alts = []string{"1", "999", "0", "-1"}
	case "HTTP":
		alts = []string{"", "400", "599", "399", "600"}
	case "T":
		alts = []string{"string", "int8", "bool", "Item"}
	case "V":
		alts = []string{old + "x", "other", swapCase(old)}
	case "Doc":
		alts = []string{"other", old + " more"}
	case "Succ", "SuccOut":
		alts = []string{"Item", "Other", "Kind"}
	case "Errs":
		alts = []string{"Base", "Basic", "base", "Nope"}
	}
	for _, a := range alts {
		if a != old {
			m.edit(func() { v.SetString(a) })
		}
	}
}

func (m *mutator) walk(v reflect.Value, field string) {
	if m.done {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		m.walk(v.Elem(), field)
	case reflect.Pointer:
		if v.Type() == teType {
			if v.IsNil() {
				return
			}
			old := v.Interface().(*TE)
			for _, t := range []*TE{N("string"), N("uint32"), N("Item"), N("Kind"), N("Id"), N("Other"), N("Nope"), L(old), M("string", old), MX(old, N("int"))} {
				if t.Expr() != old.Expr() {
					m.edit(func() { v.Set(reflect.ValueOf(t)) })
				}
			}
			if old.IsList() || old.IsMap() {
				m.edit(func() { v.Set(reflect.ValueOf(old.Elem)) })
			}
			return
		}
		if v.IsNil() {
			switch field {
			case "Val":
				m.edit(func() { v.Set(reflect.ValueOf(&Lit{V: "77"})) })
			case "Trail":
				s := "added"
				m.edit(func() { v.Set(reflect.ValueOf(&s)) })
			}
			return
		}
		if field == "Val" || field == "Trail" {
			m.edit(func() { v.Set(reflect.Zero(v.Type())) })
		}
		m.walk(v.Elem(), field)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if v.Type() == litType && f.Name == "Q" || f.Name == "NL" || f.Name == "Far" {
				continue
			}
			m.walk(v.Field(i), f.Name)
		}
	case reflect.Slice:
		n := v.Len()
		for i := 0; i < n; i++ {
			m.edit(func() { // drop
				out := reflect.MakeSlice(v.Type(), 0, n)
				v.Set(reflect.AppendSlice(reflect.AppendSlice(out, v.Slice(0, i)), v.Slice(i+1, n)))
			})
			m.edit(func() { // repeat
				out := reflect.MakeSlice(v.Type(), 0, n+1)
				v.Set(reflect.AppendSlice(reflect.AppendSlice(out, v.Slice(0, i+1)), v.Slice(i, n)))
			})
			if i+1 < n {
				m.edit(func() { // swap
					out := reflect.MakeSlice(v.Type(), n, n)
					reflect.Copy(out, v)
					out.Index(i).Set(v.Index(i + 1))
					out.Index(i + 1).Set(v.Index(i))
					v.Set(out)
				})
			}
		}
		if n == 0 && field == "Doc" {
			m.edit(func() { v.Set(reflect.ValueOf([]string{"a new comment"})) })
		}
		for i := 0; i < n && !m.done; i++ {
			m.walk(v.Index(i), field)
		}
	case reflect.String:
		m.str(v, field)
	case reflect.Bool:
		m.edit(func() { v.SetBool(!v.Bool()) })
	}
}

// jsonable tells if the JSON form can say what the document says.
func jsonable(d *Doc) bool {
	heads := map[string]bool{}
	for _, it := range d.Items {
		switch v := it.(type) {
		case *Head:
			if heads[v.Key] || v.Val.V == "" || !isHead[v.Key] {
				return false
			}
			heads[v.Key] = true
		case *Imp:
			return false
		case *Struct:
			for _, f := range v.Fields {
				for _, m := range f.Meta {
					if m.Val.V == "" || m.Key == "" {
						return false
					}
				}
			}
		case *Svc:
			for _, m := range v.Methods {
				seen := map[string]bool{}
				for _, a := range m.Ann {
					if seen[a.Name] || a.Val != nil && a.Val.V == "" {
						return false
					}
					seen[a.Name] = true
				}
				if m.Succ == "" != (m.SuccOut == "" || !m.HasOut) {
					return false
				}
				if !m.HasOut && (m.SOut || m.SuccOut != "") ||
					m.Proxy && (m.SIn || m.HasOut || m.Succ != "" || len(m.In)+len(m.Errs) > 0) {
					return false
				}
			}
		}
	}
	return true
}

var isHead = map[string]bool{"webrpc": true, "name": true, "version": true, "basepath": true}

// ridlable tells if the document can be written in RIDL.
func ridlable(d *Doc) bool {
	ok := true
	word := func(ss ...string) {
		for _, s := range ss {
			if s == "" {
				ok = false
			}
			for i := 0; i < len(s); i++ {
				if c := s[i]; !(asciiLetter(c) || c >= '0' && c <= '9' || c == '_' || c == '.') {
					ok = false
				}
			}
		}
	}
	te := func(t *TE) {
		word(t.names()...)
		if !bareKeys(t) {
			ok = false
		}
	}
	for _, it := range d.Items {
		switch v := it.(type) {
		case *Head:
			ok = ok && isHead[v.Key]
		case *Alias:
			word(v.Name)
			te(v.T)
			for _, m := range v.Meta {
				word(m.Key)
			}
		case *Enum:
			word(v.Name, v.T)
			for _, m := range v.Mem {
				word(m.Name)
			}
		case *Struct:
			word(v.Name)
			for _, f := range v.Fields {
				word(f.Name)
				te(f.T)
				for _, m := range f.Meta {
					word(m.Key)
				}
			}
		case *Err:
			word(v.Name)
			if v.Code == "" || v.Code[0] == '-' {
				ok = false
			}
			if !bare(v.Msg.V) {
				v.Msg.Q = true
			}
		case *Svc:
			word(v.Name)
			for _, m := range v.Methods {
				word(m.Name)
				if m.Name == "stream" || m.Name == "proxy" || !m.HasOut && (m.SOut || m.SuccOut != "") ||
					m.Proxy && (m.SIn || m.HasOut || m.Succ != "" || len(m.In)+len(m.Errs) > 0) {
					ok = false
				}
				for _, a := range append(append([]Arg{}, m.In...), m.Out...) {
					word(a.Name)
					te(a.T)
				}
				for _, a := range m.Ann {
					word(a.Name)
				}
				word(m.Errs...)
				if m.Succ != "" && len(m.In) > 0 || m.SuccOut != "" && len(m.Out) > 0 {
					ok = false
				}
			}
		}
	}
	return ok
}

// bareKeys tells if all map keys are names.
func bareKeys(t *TE) bool {
	if t == nil || t.IsName() {
		return true
	}
	return (t.Key == nil || t.Key.IsName()) && bareKeys(t.Elem)
}

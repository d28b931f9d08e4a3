package main

import (
	"fmt"
	"io"
	"io/fs"
	"path"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
	engine "verifengine"
)

// ------------------------------------------------ the real schema, comparable

func realTree(v *schema.VarType, idx map[*schema.Type]int) string {
	if v == nil {
		return "nil"
	}
	ref := func(t *schema.Type) string {
		if i, ok := idx[t]; ok {
			return "#" + strconv.Itoa(i)
		}
		return "#not-in-schema"
	}
	n := 0
	for _, b := range []bool{v.List != nil, v.Map != nil, v.Struct != nil, v.Enum != nil, v.Alias != nil} {
		if b {
			n++
		}
	}
	if n > 1 {
		return "ambiguous(" + v.Expr + ")"
	}
	switch v.Type {
	case schema.T_List:
		if v.List == nil {
			return "list-without-elem"
		}
		return "list<" + v.Expr + ">(" + realTree(v.List.Elem, idx) + ")"
	case schema.T_Map:
		if v.Map == nil {
			return "map-without-types"
		}
		k := v.Map.Key
		key := "nil"
		if k != nil {
			switch {
			case k.Enum != nil:
				key = "ref " + k.Enum.Name + ref(k.Enum.Type)
				if k.Enum.Name != k.Expr {
					key += " expr " + k.Expr
				}
			case k.Alias != nil:
				key = "ref " + k.Alias.Name + ref(k.Alias.Type)
				if k.Alias.Name != k.Expr {
					key += " expr " + k.Expr
				}
			default:
				key = "core " + k.Type.String()
				if k.Type.String() != k.Expr {
					key += " expr " + k.Expr
				}
			}
		}
		return "map<" + v.Expr + ">(" + key + "," + realTree(v.Map.Value, idx) + ")"
	case schema.T_Struct:
		if v.Struct == nil {
			return "struct-without-type"
		}
		return named("struct", v.Struct.Name, v.Expr, v.Struct.Type, schema.TypeKind_Struct, ref)
	case schema.T_Enum:
		if v.Enum == nil {
			return "enum-without-type"
		}
		return named("enum", v.Enum.Name, v.Expr, v.Enum.Type, schema.TypeKind_Enum, ref)
	case schema.T_Alias:
		if v.Alias == nil {
			return "alias-without-type"
		}
		return named("alias", v.Alias.Name, v.Expr, v.Alias.Type, schema.TypeKind_Alias, ref)
	}
	if n > 0 {
		return "core-with-parts(" + v.Expr + ")"
	}
	s := v.Type.String()
	if s != v.Expr {
		s += " expr " + v.Expr
	}
	return s
}

func named(kind, name, expr string, t *schema.Type, want string, ref func(*schema.Type) string) string {
	s := kind + " " + name + ref(t)
	if name != expr {
		s += " expr " + expr
	}
	if t == nil || t.Kind != want || t.Name != name {
		s += " wrong-type"
	}
	return s
}

func metaKVs(ms []schema.TypeFieldMeta) []KV {
	var out []KV
	for _, m := range ms {
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if len(keys) != 1 {
			out = append(out, KV{fmt.Sprintf("!%d keys", len(keys)), ""})
		}
		for _, k := range keys {
			if s, ok := m[k].(string); ok {
				out = append(out, KV{k, s})
			} else {
				out = append(out, KV{k, fmt.Sprintf("!%T %v", m[k], m[k])})
			}
		}
	}
	return out
}

// Real converts the implementation's schema.
func Real(s *schema.WebRPCSchema) *Sch {
	r := &Sch{Webrpc: s.WebrpcVersion, Name: s.SchemaName, Version: s.SchemaVersion, Base: s.BasePath}
	idx := make(map[*schema.Type]int, len(s.Types))
	for i, t := range s.Types {
		if _, dup := idx[t]; !dup {
			idx[t] = i
		}
	}
	for _, t := range s.Types {
		rt := RType{Kind: t.Kind, Name: t.Name, Meta: metaKVs(t.Meta), Doc: t.Comments}
		if t.Type != nil {
			rt.T = realTree(t.Type, idx)
		}
		if t.Optional || t.Value != "" {
			rt.T += " stray-extra"
		}
		for _, f := range t.Fields {
			rf := RField{Name: f.Name, Opt: f.Optional, Value: f.Value, Meta: metaKVs(f.Meta), Doc: f.Comments}
			if f.Type != nil {
				rf.T = realTree(f.Type, idx)
			}
			rt.Fields = append(rt.Fields, rf)
		}
		r.Types = append(r.Types, rt)
	}
	for _, e := range s.Errors {
		r.Errs = append(r.Errs, RErr{Code: e.Code, HTTP: e.HTTPStatus, Name: e.Name, Msg: e.Message})
	}
	for _, v := range s.Services {
		rv := RSvc{Name: v.Name, Doc: v.Comments}
		for _, m := range v.Methods {
			rm := RMethod{Name: m.Name, Succ: m.Succinct, SIn: m.StreamInput, SOut: m.StreamOutput, Errs: m.Errors, Doc: m.Comments}
			for k, a := range m.Annotations {
				if a.AnnotationType != k {
					k += " as " + a.AnnotationType
				}
				rm.Ann = append(rm.Ann, KV{k, a.Value})
			}
			sort.Slice(rm.Ann, func(i, j int) bool { return rm.Ann[i].K < rm.Ann[j].K })
			args := func(as []*schema.MethodArgument) []RArg {
				var out []RArg
				for _, a := range as {
					out = append(out, RArg{Name: a.Name, T: realTree(a.Type, idx), Opt: a.Optional || a.TypeExtra.Optional})
				}
				return out
			}
			rm.In, rm.Out = args(m.Inputs), args(m.Outputs)
			rv.Methods = append(rv.Methods, rm)
		}
		r.Svcs = append(r.Svcs, rv)
	}
	return r
}

// ------------------------------------------------ running the implementation

// memFS is a file system in memory.
type memFS map[string]string

type memFile struct {
	name string
	*strings.Reader
	n int64
}

func (f *memFile) Stat() (fs.FileInfo, error) { return memInfo{path.Base(f.name), f.n}, nil }
func (f *memFile) Close() error               { return nil }

type memInfo struct {
	name string
	n    int64
}

func (i memInfo) Name() string       { return i.name }
func (i memInfo) Size() int64        { return i.n }
func (i memInfo) Mode() fs.FileMode  { return 0o444 }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return false }
func (i memInfo) Sys() any           { return nil }

func (m memFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	s, ok := m[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return &memFile{name, strings.NewReader(s), int64(len(s))}, nil
}

var _ io.Reader = (*memFile)(nil)

func parseFS(f fs.FS, root string) (*schema.WebRPCSchema, error) {
	return ridl.NewParser(f, "/", root).Parse()
}

func parseText(text string) (*schema.WebRPCSchema, error) {
	return parseFS(memFS{"a.ridl": text}, "a.ridl")
}

// Outcome is the result of one parse in comparable form.
type Outcome struct {
	OK   bool
	Dump string
	NoDc string
	Err  error
	S    *schema.WebRPCSchema
}

func outcome(s *schema.WebRPCSchema, err error) Outcome {
	if err != nil {
		return Outcome{Err: err, S: s}
	}
	if s == nil {
		return Outcome{Err: fmt.Errorf("neither schema nor error")}
	}
	r := Real(s)
	return Outcome{OK: true, Dump: r.String(), NoDc: r.NoDocs(), S: s}
}

// expect parses text and compares with the reference.
func expect(w *engine.W, text string, want *Sch, ok bool) (Outcome, bool) {
	s, err := parseText(text)
	return judge(w, s, err, want, ok)
}

func judge(w *engine.W, s *schema.WebRPCSchema, err error, want *Sch, ok bool) (Outcome, bool) {
	w.Step(1)
	if (s == nil) == (err == nil) {
		w.Fail("both-or-neither", "schema %v together with error %v", s != nil, err)
		return Outcome{}, false
	}
	o := outcome(s, err)
	if !ok {
		w.State("rejected")
		if o.OK {
			w.Fail("accepted", "an invalid document was accepted:\n%s", o.Dump)
			return o, false
		}
		return o, true
	}
	if !o.OK {
		w.Fail("rejected", "a valid document was rejected: %v", err)
		return o, false
	}
	exp := want.String()
	w.State(exp)
	if o.Dump != exp {
		w.Fail("differs", "the schema differs from what the document declares:\n%s", diff(exp, o.Dump))
		return o, false
	}
	return o, true
}

// run is expect for a document in its default layout.
func run(w *engine.W, d *Doc) {
	d = around(d)
	text := ""
	if !w.Mine(func() string { return d.RIDL() }) {
		return
	}
	text = d.RIDL()
	want, ok := d.Expect()
	expect(w, text, want, ok)
}

func diff(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	at := func(s []string) string {
		if i >= len(s) {
			return "(end)"
		}
		end := i + 3
		if end > len(s) {
			end = len(s)
		}
		return strings.Join(s[i:end], "\n           ")
	}
	return fmt.Sprintf("line %d\n expected: %s\n      got: %s", i+1, at(a), at(b))
}

// settled waits for the goroutines of a parse to finish; it reports how many are
// left above the baseline.
func settled(base int) int {
	for i := 0; i < 2000; i++ {
		n := runtime.NumGoroutine()
		if n <= base {
			return 0
		}
		if i < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	return runtime.NumGoroutine() - base
}

package main

import (
	"bytes"
	"encoding/json"
	"strconv"
)

type jm = map[string]any

// JSONTypes is the order of the types in the JSON form: canonical, or as written.
func (d *Doc) JSON(canonical bool) string {
	root := jm{"webrpc": "", "name": "", "version": "", "basepath": "", "types": []any{}, "errors": []any{}, "services": []any{}}
	var al, en, st, written []any
	es, ss := []any{}, []any{}
	doc := func(m jm, c *Cm) jm {
		if l := docLines(c); len(l) > 0 {
			m["comments"] = l
		}
		return m
	}
	meta := func(m jm, ms []Meta) jm {
		if len(ms) > 0 {
			out := []any{}
			for _, e := range ms {
				out = append(out, jm{e.Key: e.Val.V})
			}
			m["meta"] = out
		}
		return m
	}
	args := func(as []Arg, succ string) []any {
		out := []any{}
		if succ != "" {
			return append(out, jm{"name": lowerFirst(succ), "type": succ, "optional": false})
		}
		for _, a := range as {
			out = append(out, jm{"name": a.Name, "type": a.T.Expr(), "optional": a.Opt})
		}
		return out
	}
	for _, it := range d.Items {
		switch v := it.(type) {
		case *Head:
			root[v.Key] = v.Val.V
		case *Alias:
			t := doc(meta(jm{"kind": "alias", "name": v.Name, "type": v.T.Expr()}, v.Meta), &v.Cm)
			al, written = append(al, t), append(written, t)
		case *Enum:
			fs := []any{}
			for i, m := range v.Mem {
				val := strconv.Itoa(i)
				if v.T == "string" {
					val = m.Name
				}
				if m.Val != nil {
					val = m.Val.V
				}
				fs = append(fs, doc(jm{"name": m.Name, "value": val}, &m.Cm))
			}
			t := jm{"kind": "enum", "name": v.Name, "type": v.T, "fields": fs}
			en, written = append(en, t), append(written, t)
		case *Struct:
			fs := []any{}
			for _, f := range v.Fields {
				j := doc(meta(jm{"name": f.Name, "type": f.T.Expr()}, f.Meta), &f.Cm)
				if f.Opt {
					j["optional"] = true
				}
				fs = append(fs, j)
			}
			t := doc(jm{"kind": "struct", "name": v.Name, "fields": fs}, &v.Cm)
			st, written = append(st, t), append(written, t)
		case *Err:
			code, _ := strconv.Atoi(v.Code)
			h := 400
			if v.HTTP != "" {
				h, _ = strconv.Atoi(v.HTTP)
			}
			es = append(es, jm{"code": code, "name": v.Name, "message": v.Msg.V, "httpStatus": h})
		case *Svc:
			ms := []any{}
			for _, m := range v.Methods {
				an := jm{}
				for _, a := range m.Ann {
					val := ""
					if a.Val != nil {
						val = a.Val.V
					}
					an[a.Name] = jm{"annotationType": a.Name, "value": val}
				}
				out := []any{}
				if m.HasOut {
					out = args(m.Out, m.SuccOut)
				}
				j := doc(jm{"name": m.Name, "annotations": an, "inputs": args(m.In, m.Succ), "outputs": out}, &m.Cm)
				if m.Succ != "" {
					j["succinct"] = true
				}
				if m.SIn {
					j["streamInput"] = true
				}
				if m.SOut {
					j["streamOutput"] = true
				}
				if len(m.Errs) > 0 {
					j["errors"] = m.Errs
				}
				ms = append(ms, j)
			}
			ss = append(ss, doc(jm{"name": v.Name, "methods": ms}, &v.Cm))
		}
	}
	if canonical {
		root["types"] = append(append(append([]any{}, al...), en...), st...)
	} else if written != nil {
		root["types"] = written
	}
	root["errors"], root["services"] = es, ss
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(root); err != nil {
		panic(err)
	}
	return b.String()
}

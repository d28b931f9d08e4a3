package main

import (
	"strings"
)

type gap byte

const (
	gNone gap = iota
	gOpt0     // optional space, none by default
	gOpt1     // optional space, one by default
	gReq      // at least one space
	gLit      // a literal value, quoted or not
	gLitQ     // a literal value that can only be written in quotes
)

type part struct {
	g gap
	s string
}

type line struct {
	kind   string
	indent string
	parts  []part
	trail  *string
}

func (l *line) t(s string) *line { l.parts = append(l.parts, part{s: s}); return l }
func (l *line) gap(g gap) *line  { l.parts = append(l.parts, part{g: g}); return l }
func (l *line) lit(v Lit) *line {
	if !bare(v.V) {
		l.parts = append(l.parts, part{gLitQ, v.V})
		return l
	}
	if v.Q {
		l.parts = append(l.parts, part{gLit, "q" + v.V})
	} else {
		l.parts = append(l.parts, part{gLit, "w" + v.V})
	}
	return l
}

// bare tells if a literal can be written without quotes at every position.
func bare(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(asciiLetter(c) || c >= '0' && c <= '9' || c == '_' || i > 0 && (c == '.' || c == '-' || c == '/')) {
			return false
		}
	}
	return true
}

var quoter = strings.NewReplacer("\n", `\n`, "\t", `\t`, `"`, `\"`)

func quote(s string) string { return `"` + quoter.Replace(s) + `"` }

type lines []*line

func (ls *lines) add(kind, indent string, c *Cm) *line {
	if c != nil {
		for _, f := range c.Far {
			*ls = append(*ls, (&line{kind: "comment", indent: indent}).t("#"+pad(f)))
		}
		if len(c.Far) > 0 {
			*ls = append(*ls, &line{kind: "blank"})
		}
		for _, f := range c.Doc {
			*ls = append(*ls, (&line{kind: "comment", indent: indent}).t("#"+pad(f)))
		}
	}
	l := &line{kind: kind, indent: indent}
	if c != nil {
		l.trail = c.Trail
	}
	*ls = append(*ls, l)
	return l
}

func pad(s string) string {
	if s == "" || s[0] == '!' || s[0] == '#' {
		return s
	}
	return " " + s
}

func (l *line) typ(t *TE) *line {
	switch {
	case t.IsList():
		return l.t("[]").typ(t.Elem)
	case t.IsMap():
		return l.t("map").gap(gOpt0).t("<").gap(gOpt0).typ(t.Key).gap(gOpt0).t(",").gap(gOpt0).typ(t.Elem).gap(gOpt0).t(">")
	}
	return l.t(t.Name)
}

func (ls *lines) metas(ms []Meta, indent string) {
	for i := range ms {
		m := &ms[i]
		ls.add("meta", indent, &m.Cm).t("+").gap(gOpt1).t(m.Key).gap(gOpt1).t("=").gap(gOpt1).lit(m.Val)
	}
}

func (l *line) args(args []Arg) *line {
	l.t("(").gap(gOpt0)
	for i, a := range args {
		if i > 0 {
			l.gap(gOpt0).t(",").gap(gOpt1)
		}
		l.t(a.Name)
		if a.Opt {
			l.t("?")
		}
		l.t(":").gap(gOpt1).typ(a.T)
	}
	return l.gap(gOpt0).t(")")
}

// Lines is the document as lines of parts.
func (d *Doc) Lines() lines {
	var ls lines
	prev := ""
	inList := false
	for _, it := range d.Items {
		kind := ""
		wasList := inList
		inList = false
		switch it.(type) {
		case *Head:
			kind = "head"
		case *Imp:
			kind = "imp"
		case *Alias:
			kind = "alias"
		case *Err:
			kind = "err"
		default:
			kind = "block"
		}
		if len(ls) > 0 && (kind != prev || kind == "block") {
			ls = append(ls, &line{kind: "blank"})
		}
		prev = kind
		switch v := it.(type) {
		case *Head:
			ls.add("head", "", &v.Cm).t(v.Key).gap(gOpt1).t("=").gap(gOpt1).lit(v.Val)
		case *Imp:
			var l *line
			if inList = v.InList; inList {
				if !wasList {
					ls.add("importlist", "", nil).t("import")
				}
				l = ls.add("import", "  ", nil).t("-").gap(gOpt1)
			} else {
				l = ls.add("import", "", &v.Cm).t("import").gap(gReq)
			}
			if v.Path.Q {
				l.parts = append(l.parts, part{gLitQ, v.Path.V})
			} else {
				l.t(v.Path.V)
			}
			for _, m := range v.Members {
				ls.add("member", "  ", nil).t("-").gap(gOpt1).lit(W(m))
			}
		case *Alias:
			ls.add("alias", "", &v.Cm).t("type").gap(gReq).t(v.Name).t(":").gap(gOpt1).typ(v.T)
			ls.metas(v.Meta, "  ")
		case *Enum:
			ls.add("enum", "", &v.Cm).t("enum").gap(gReq).t(v.Name).t(":").gap(gOpt1).t(v.T)
			for i := range v.Mem {
				m := &v.Mem[i]
				l := ls.add("enummember", "  ", &m.Cm).t("-").gap(gOpt1).t(m.Name)
				if m.Val != nil {
					l.gap(gOpt1).t("=").gap(gOpt1).lit(*m.Val)
				}
			}
		case *Struct:
			ls.add("struct", "", &v.Cm).t("struct").gap(gReq).t(v.Name)
			for i := range v.Fields {
				f := &v.Fields[i]
				l := ls.add("field", "  ", &f.Cm).t("-").gap(gOpt1).t(f.Name)
				if f.Opt {
					l.t("?")
				}
				l.t(":").gap(gOpt1).typ(f.T)
				ls.metas(f.Meta, "    ")
			}
		case *Err:
			l := ls.add("error", "", &v.Cm).t("error").gap(gReq).t(v.Code).gap(gReq).t(v.Name).gap(gReq)
			if strings.ContainsAny(v.Msg.V, "/") && !v.Msg.Q {
				panic("bare error message with slash")
			}
			l.lit(v.Msg)
			if v.HTTP != "" {
				l.gap(gReq).t("HTTP").gap(gReq).t(v.HTTP)
			}
		case *Svc:
			ls.add("service", "", &v.Cm).t("service").gap(gReq).lit(W(v.Name))
			for i := range v.Methods {
				m := &v.Methods[i]
				c := &m.Cm
				var l *line
				for j, a := range m.Ann {
					if j == 0 || a.NL {
						var ac *Cm
						if j == 0 {
							ac = &Cm{Doc: c.Doc, Far: c.Far}
							c = &Cm{Trail: c.Trail}
						}
						l = ls.add("annotation", "  ", ac)
					} else {
						l.gap(gReq)
					}
					l.t("@").t(a.Name)
					if a.Val != nil {
						l.t(":").lit(*a.Val)
					}
				}
				l = ls.add("method", "  ", c).t("-").gap(gOpt1)
				if m.SIn {
					l.t("stream").gap(gReq)
				}
				if m.Proxy {
					l.t("proxy").gap(gReq).t(m.Name)
					continue
				}
				l.t(m.Name)
				if m.Succ != "" {
					l.t("(").t(m.Succ).t(")")
				} else {
					l.args(m.In)
				}
				if m.HasOut {
					l.gap(gOpt1).t("=>").gap(gOpt1)
					if m.SOut {
						l.t("stream").gap(gOpt1)
					}
					if m.SuccOut != "" {
						l.t("(").t(m.SuccOut).t(")")
					} else {
						l.args(m.Out)
					}
				}
				if len(m.Errs) > 0 {
					l.gap(gOpt1).t("errors").gap(gReq)
					for j, e := range m.Errs {
						if j > 0 {
							l.gap(gReq).t("|").gap(gOpt1)
						}
						l.t(e)
					}
				}
			}
		}
	}
	return ls
}

// RIDL renders the document in the default layout.
func (d *Doc) RIDL() string {
	var b strings.Builder
	for _, l := range d.Lines() {
		l.write(&b, nil)
		b.WriteString("\n")
	}
	return b.String()
}

// A layout resolves each gap of kind k with n alternatives; 0 is the default.
type layout func(k byte, n int) int

func plain(byte, int) int { return 0 }

func (l *line) write(b *strings.Builder, pick layout) {
	if pick == nil {
		pick = plain
	}
	if l.kind != "blank" {
		b.WriteString([4]string{l.indent, "", "\t", "        "}[pick('i', 4)])
	}
	for _, p := range l.parts {
		switch p.g {
		case gNone:
			b.WriteString(p.s)
		case gOpt0:
			b.WriteString([4]string{"", " ", "\t", "   "}[pick('z', 4)])
		case gOpt1:
			b.WriteString([4]string{" ", "", "\t", "   "}[pick('o', 4)])
		case gReq:
			b.WriteString([4]string{" ", "\t", "  ", " \t "}[pick('r', 4)])
		case gLitQ:
			b.WriteString(quote(p.s))
		case gLit:
			q := p.s[0] == 'q'
			if pick('q', 2) == 1 {
				q = !q
			}
			if q {
				b.WriteString(quote(p.s[1:]))
			} else {
				b.WriteString(p.s[1:])
			}
		}
	}
	if l.trail != nil {
		b.WriteString([3]string{" ", "\t", "    "}[pick('t', 3)])
		b.WriteString("#" + pad(*l.trail))
	}
}

// Layout renders the document in a chosen layout: every gap, indent, line end
// and line break is a point of choice.
func (d *Doc) Layout(pick layout) string {
	var b strings.Builder
	ls := d.Lines()
	eol := [2]string{"\n", "\r\n"}[pick('n', 2)]
	for i, l := range ls {
		if l.kind == "blank" {
			b.WriteString([4]string{eol, "", " \t" + eol, eol + eol + eol}[pick('b', 4)])
			continue
		}
		b.WriteString([5]string{"", eol, "# a note, with \"quotes\" (and = more): @x - y" + eol, eol + "    #" + eol + eol, " \t " + eol}[pick('a', 5)])
		l.write(&b, pick)
		if l.trail == nil && l.kind != "comment" {
			b.WriteString([6]string{"", " ", "\t", " # n", "\t#struct X", " ## \"x"}[pick('e', 6)])
		} else {
			b.WriteString([3]string{"", " ", "\t"}[pick('f', 3)])
		}
		if i == len(ls)-1 {
			b.WriteString([4]string{eol, "", eol + eol, eol + "# end"}[pick('l', 4)])
		} else {
			b.WriteString(eol)
		}
	}
	return b.String()
}

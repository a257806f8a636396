package main

import (
	"encoding/xml"
	"fmt"
	"io"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
)

// Stmt is a statement of the specification.
type Stmt struct {
	K string `json:"k"` // "r": resource object, "d": literal object
	S string `json:"s"`
	P string `json:"p"`
	O string `json:"o"`
	L string `json:"l"` // language
}

func (s Stmt) String() string { return s.S + "|" + s.P + "|" + s.O + "|" + s.K + "|" + s.L }

// memSource is a Source reading statements from memory
type memSource struct {
	doc   []Stmt
	pos   int
	opens int
	errAt int // pass*1_000_000+pos of an injected error, or -1
	err   error
	closes int
	isOpen bool
	misuse []string
}

func newMemSource(doc []Stmt) *memSource { return &memSource{doc: doc, errAt: -1} }

func (m *memSource) Open() error { m.pos = 0; m.opens++; m.isOpen = true; return nil }
func (m *memSource) Close() error {
	m.closes++
	if !m.isOpen {
		m.misuse = append(m.misuse, "close of a source that is not open")
	}
	m.isOpen = false
	return nil
}
func (m *memSource) Next() sparkl.Token {
	if !m.isOpen {
		m.misuse = append(m.misuse, "next on a source that is not open")
	}
	if m.errAt >= 0 && (m.opens-1)*1_000_000+m.pos == m.errAt {
		return sparkl.Token{Err: m.err}
	}
	if m.pos >= len(m.doc) {
		return sparkl.Token{Err: io.EOF}
	}
	s := m.doc[m.pos]
	m.pos++
	t := sparkl.Token{Subject: U(s.S), Predicate: U(s.P)}
	if s.K == "d" {
		t.HasDatum = true
		t.Datum = impl.Datum(s.O)
		t.Language = impl.Language(s.L)
	} else {
		t.Object = U(s.O)
	}
	return t
}

// nquads renders a document as nquads
func nquads(doc []Stmt) string {
	var b strings.Builder
	for _, s := range doc {
		if s.K == "d" {
			fmt.Fprintf(&b, "<%s> <%s> %s", nqIRI(s.S), nqIRI(s.P), nqString(s.O))
			if s.L != "" {
				fmt.Fprintf(&b, "@%s", s.L)
			}
			b.WriteString(" .\n")
		} else {
			fmt.Fprintf(&b, "<%s> <%s> <%s> .\n", nqIRI(s.S), nqIRI(s.P), nqIRI(s.O))
		}
	}
	return b.String()
}

// nqIRI escapes what can't be in a name otherwise
func nqIRI(l string) string {
	var b strings.Builder
	for _, r := range string(U(l)) {
		if r <= ' ' || strings.ContainsRune("<>\"{}|^`\\", r) {
			fmt.Fprintf(&b, `\u%04X`, r)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func nqString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch r {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// PB is a node in a pathbuilder of the specification
type PB struct {
	ID       string   `json:"id"`
	Path     []string `json:"path"`
	DT       string   `json:"dt"` // datatype property, "" or "empty" for none
	Bundle   string   `json:"bundle"`
	Fields   []PB     `json:"fields"`
	Children []PB     `json:"children"`
	Weight   int      `json:"weight"`
	Card     int      `json:"card"`
	Disabled bool     `json:"disabled"`
	Type     string   `json:"type"` // type of a field, string by default
	Name     string   `json:"name"` // "Name ID" by default
}

func esc(s string) string {
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// pbXML renders pathbuilder xml
func pbXML(pbs []PB) string {
	var b strings.Builder
	b.WriteString("<pathbuilderinterface>\n")
	var rec func(n PB, parent string, group bool)
	rec = func(n PB, parent string, group bool) {
		g := 0
		if group {
			g = 1
		}
		en := 1
		if n.Disabled {
			en = 0
		}
		bundle := n.Bundle
		if bundle == "" {
			bundle = "b_" + n.ID
		}
		ftype, name := n.Type, n.Name
		if ftype == "" {
			ftype = "string"
		}
		if name == "" {
			name = "Name " + n.ID
		}
		p := parent
		if p == "" {
			p = "0"
		}
		fmt.Fprintf(&b, "<path><id>%s</id><weight>%d</weight><enabled>%d</enabled><group_id>%s</group_id><bundle>%s</bundle><field>f_%s</field><fieldtype>%s</fieldtype><displaywidget></displaywidget><formatterwidget></formatterwidget><cardinality>%d</cardinality><field_type_informative>string</field_type_informative><path_array>", esc(n.ID), n.Weight, en, esc(p), esc(bundle), esc(n.ID), esc(ftype), n.Card)
		for i, u := range n.Path {
			t := "x"
			if i%2 == 1 {
				t = "y"
			}
			fmt.Fprintf(&b, "<%s>%s</%s>", t, esc(string(U(u))), t)
		}
		dt := n.DT
		if dt != "empty" && dt != "" {
			dt = string(U(dt))
		}
		fmt.Fprintf(&b, "</path_array><datatype_property>%s</datatype_property><short_name></short_name><disam>0</disam><description></description><uuid>uuid-%s</uuid><is_group>%d</is_group><name>%s</name></path>\n", esc(dt), esc(n.ID), g, esc(name))
		if group {
			for _, f := range n.Fields {
				rec(f, n.ID, false)
			}
			for _, c := range n.Children {
				rec(c, n.ID, true)
			}
		}
	}
	for _, n := range pbs {
		rec(n, "", true)
	}
	b.WriteString("</pathbuilderinterface>\n")
	return b.String()
}

func makePB(pbs []PB) (pathbuilder.Pathbuilder, error) {
	return pbxml.Unmarshal([]byte(pbXML(pbs)))
}

type renderItem struct {
	Doc []Stmt `json:"doc"`
	PB  []PB   `json:"pb"`
}

func init() {
	handle("render", func(item renderItem) (any, error) {
		return map[string]string{"nq": nquads(item.Doc), "xml": pbXML(item.PB)}, nil
	})
}

package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// The XML binding of the document model, computed from the resolved types the
// way the codec reads struct definitions.

//go:embed schema.tsv
var schemaTable string

type wireField struct {
	goName  string
	depth   int
	mode    string // attr, elem, chardata, cdata, innerxml, comment, any, anyattr
	ns      string
	prefix  string
	name    string
	parents []string
	omit    bool
	typ     types.Type
	pos     types.Object
	owner   string
}

func (f *wireField) path() string {
	return strings.Join(append(append([]string{}, f.parents...), f.name), ">")
}

type wireType struct {
	name     string
	named    *types.Named
	xmlname  *wireField // tagged or untagged XMLName field
	fields   []*wireField
	problems []string
}

type wireModel struct {
	p     *Program
	types map[string]*wireType
	order []string
}

// wire computes the bindings of every struct type reachable from the
// document's roots.
func (p *Program) wire(roots ...string) *wireModel {
	m := &wireModel{p: p, types: map[string]*wireType{}}
	for _, r := range roots {
		if o := p.MPD.Pkg.Scope().Lookup(r); o != nil {
			m.visit(o.Type())
		}
	}
	for n := range m.types {
		m.order = append(m.order, n)
	}
	sort.Strings(m.order)
	return m
}

func elemType(t types.Type) types.Type {
	for {
		switch u := types.Unalias(t).(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			if !isByteSlice(u) {
				t = u.Elem()
				continue
			}
		case *types.Array:
			t = u.Elem()
			continue
		}
		return t
	}
}

func (m *wireModel) visit(t types.Type) {
	t = elemType(t)
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		if s, ok := n.Underlying().(*types.Slice); ok && !m.hooked(n) {
			m.visit(s.Elem())
		}
		return
	}
	if m.hooked(n) || n.Obj().Pkg() == nil || n.Obj().Pkg() != m.p.MPD.Pkg {
		return
	}
	name := n.Obj().Name()
	if m.types[name] != nil {
		return
	}
	w := &wireType{name: name, named: n}
	m.types[name] = w
	m.collect(w, n, 0)
	for _, f := range w.fields {
		m.visit(f.typ)
	}
}

// hooks lists the codec interfaces implemented by t or *t.
func (m *wireModel) hooks(t types.Type) map[string]bool {
	out := map[string]bool{}
	for _, h := range []string{"MarshalXMLAttr", "UnmarshalXMLAttr", "MarshalXML", "UnmarshalXML", "MarshalText", "UnmarshalText"} {
		var mt types.Type = t
		if _, ok := types.Unalias(t).(*types.Pointer); !ok {
			mt = types.NewPointer(t)
		}
		obj, _, _ := types.LookupFieldOrMethod(mt, true, nil, h)
		if f, ok := obj.(*types.Func); ok && m.hookSignature(f, h) {
			out[h] = true
		}
	}
	return out
}

func (m *wireModel) hookSignature(f *types.Func, name string) bool {
	var iface string
	switch name {
	case "MarshalXMLAttr":
		iface = "MarshalerAttr"
	case "UnmarshalXMLAttr":
		iface = "UnmarshalerAttr"
	case "MarshalXML":
		iface = "Marshaler"
	case "UnmarshalXML":
		iface = "Unmarshaler"
	default:
		return true
	}
	o := m.p.XML.Pkg.Scope().Lookup(iface)
	if o == nil {
		return false
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok || it.NumMethods() != 1 {
		return false
	}
	a, b := it.Method(0).Type().(*types.Signature), f.Type().(*types.Signature)
	return types.Identical(types.NewSignatureType(nil, nil, nil, a.Params(), a.Results(), a.Variadic()),
		types.NewSignatureType(nil, nil, nil, b.Params(), b.Results(), b.Variadic()))
}

func (m *wireModel) hooked(t types.Type) bool {
	h := m.hooks(t)
	return h["MarshalXML"] || h["UnmarshalXML"] || h["MarshalText"] || h["UnmarshalText"] || h["MarshalXMLAttr"] || h["UnmarshalXMLAttr"]
}

// collect adds the effective fields of struct type t (embedded at depth d).
func (m *wireModel) collect(w *wireType, t types.Type, d int) {
	st := t.Underlying().(*types.Struct)
	owner := typeStr(t)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("xml")
		if !f.Exported() && !f.Embedded() || tag == "-" {
			continue
		}
		if f.Embedded() {
			et := f.Type()
			if p, ok := types.Unalias(et).(*types.Pointer); ok {
				et = p.Elem()
			}
			if _, ok := et.Underlying().(*types.Struct); ok {
				if tag != "" {
					w.problems = append(w.problems, fmt.Sprintf("embedded %s.%s is flattened, its tag %q has no effect", owner, f.Name(), tag))
				}
				sub := &wireType{name: w.name}
				m.collect(sub, et, d+1)
				w.problems = append(w.problems, sub.problems...)
				if w.xmlname == nil && sub.xmlname != nil && sub.xmlname.name != "" {
					w.xmlname = sub.xmlname
				}
				for _, sf := range sub.fields {
					m.add(w, sf)
				}
				continue
			}
		}
		wf, err := m.field(owner, f, tag)
		if err != "" {
			w.problems = append(w.problems, err)
			continue
		}
		wf.depth, wf.owner = d, owner
		if f.Name() == "XMLName" {
			w.xmlname = wf
			continue
		}
		m.add(w, wf)
	}
}

func splitPrefix(s string) (string, string) {
	if p, l, ok := strings.Cut(s, ":"); ok && p != "" && l != "" {
		return p, l
	}
	return "", s
}

// field parses one tag.
func (m *wireModel) field(owner string, f *types.Var, tag string) (*wireField, string) {
	w := &wireField{goName: f.Name(), typ: f.Type(), pos: f}
	where := owner + "." + f.Name()
	if ns, t, ok := strings.Cut(tag, " "); ok {
		w.ns, tag = ns, t
	}
	toks := strings.Split(tag, ",")
	tag = toks[0]
	flags := map[string]bool{}
	for _, t := range toks[1:] {
		switch t {
		case "attr", "cdata", "chardata", "innerxml", "comment", "any":
			flags[t] = true
		case "omitempty":
			w.omit = true
		default:
			return nil, fmt.Sprintf("%s: unknown option %q in tag", where, t)
		}
	}
	switch {
	case len(flags) == 0:
		w.mode = "elem"
	case len(flags) == 2 && flags["any"] && flags["attr"]:
		w.mode = "anyattr"
	case len(flags) == 1:
		for k := range flags {
			w.mode = k
		}
	default:
		return nil, fmt.Sprintf("%s: contradictory options in tag", where)
	}
	if w.mode != "elem" && (f.Name() == "XMLName" || tag != "" && w.mode != "attr") {
		return nil, fmt.Sprintf("%s: invalid tag", where)
	}
	if w.omit && w.mode != "elem" && w.mode != "attr" && w.mode != "any" {
		return nil, fmt.Sprintf("%s: omitempty on %s is refused by the codec", where, w.mode)
	}
	if w.ns != "" && tag == "" {
		return nil, fmt.Sprintf("%s: namespace without name", where)
	}
	if f.Name() == "XMLName" {
		w.prefix, w.name = splitPrefix(tag)
		return w, ""
	}
	xn := m.lookupXMLName(f.Type())
	if tag == "" {
		if xn != nil {
			w.ns, w.prefix, w.name = xn.ns, xn.prefix, xn.name
		} else {
			w.name = f.Name()
		}
		if w.mode != "elem" && w.mode != "attr" {
			w.name = ""
		}
		return w, ""
	}
	ps := strings.Split(tag, ">")
	if ps[0] == "" {
		ps[0] = f.Name()
	}
	if ps[len(ps)-1] == "" {
		return nil, fmt.Sprintf("%s: trailing '>' in tag", where)
	}
	w.prefix, w.name = splitPrefix(ps[len(ps)-1])
	for _, x := range ps[:len(ps)-1] {
		_, l := splitPrefix(x)
		w.parents = append(w.parents, l)
	}
	if len(w.parents) > 0 && w.mode != "elem" {
		return nil, fmt.Sprintf("%s: path on %s", where, w.mode)
	}
	if w.mode == "elem" && xn != nil && xn.name != w.name {
		return nil, fmt.Sprintf("%s: name %q conflicts with XMLName %q of its type", where, w.name, xn.name)
	}
	return w, ""
}

func (m *wireModel) lookupXMLName(t types.Type) *wireField {
	for {
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == "XMLName" {
			w, err := m.field(typeStr(t), f, reflect.StructTag(st.Tag(i)).Get("xml"))
			if err == "" && w.name != "" {
				return w
			}
			return nil
		}
	}
	return nil
}

// add applies the codec's rules for fields that claim the same name.
func (m *wireModel) add(w *wireType, nf *wireField) {
	var conf []int
	for i, of := range w.fields {
		if of.mode != nf.mode || of.ns != "" && nf.ns != "" && of.ns != nf.ns {
			continue
		}
		a, b := append(append([]string{}, of.parents...), of.name), append(append([]string{}, nf.parents...), nf.name)
		n := min(len(a), len(b))
		if !reflect.DeepEqual(a[:n], b[:n]) {
			continue
		}
		if len(a) == len(b) && of.ns != nf.ns {
			continue
		}
		conf = append(conf, i)
	}
	if len(conf) == 0 {
		w.fields = append(w.fields, nf)
		return
	}
	for _, i := range conf {
		of := w.fields[i]
		w.problems = append(w.problems, fmt.Sprintf("%s.%s and %s.%s both claim %s %q", of.owner, of.goName, nf.owner, nf.goName, nf.mode, nf.path()))
	}
	for _, i := range conf {
		if w.fields[i].depth < nf.depth {
			return
		}
	}
	for c := len(conf) - 1; c >= 0; c-- {
		w.fields = append(w.fields[:conf[c]], w.fields[conf[c]+1:]...)
	}
	w.fields = append(w.fields, nf)
}

// card: 1 plain value, ? pointer, * slice (a trailing p: of pointers).
func (m *wireModel) cardDomain(f *wireField) (string, string) {
	t, card := f.typ, "1"
	if m.hooks(t)["MarshalXMLAttr"] || f.mode == "anyattr" {
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			return "?", m.domain(p.Elem(), f.mode)
		}
		return card, m.domain(t, f.mode)
	}
	if s, ok := t.Underlying().(*types.Slice); ok && !isByteSlice(s) {
		card, t = "*", s.Elem()
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t = p.Elem()
		}
	} else if p, ok := types.Unalias(t).(*types.Pointer); ok {
		card, t = "?", p.Elem()
	}
	return card, m.domain(t, f.mode)
}

func (m *wireModel) domain(t types.Type, mode string) string {
	h := m.hooks(t)
	var hs []string
	for k := range h {
		hs = append(hs, k)
	}
	sort.Strings(hs)
	if len(hs) > 0 {
		return typeStr(t) + "+" + strings.Join(hs, "+")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Name()
	case *types.Struct:
		return "struct " + typeStr(t)
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// rows renders the model as table lines.
func (m *wireModel) rows() []string {
	var out []string
	for _, n := range m.order {
		w := m.types[n]
		if w.xmlname != nil {
			out = append(out, strings.Join([]string{n, "xmlname", dash(w.xmlname.ns), dash(w.xmlname.prefix), dash(w.xmlname.name), "-", "-", "-"}, "\t"))
		} else {
			out = append(out, strings.Join([]string{n, "xmlname", "-", "-", "-", "-", "-", "none"}, "\t"))
		}
		for _, f := range w.fields {
			card, dom := m.cardDomain(f)
			omit := "-"
			if f.omit {
				omit = "omitempty"
			}
			out = append(out, strings.Join([]string{n, f.mode, dash(f.ns), dash(f.prefix), dash(f.path()), card, omit, dom}, "\t"))
		}
	}
	return out
}

func dash(s string) string {
	if s == "" {
		return "-"
	}
	return s
}

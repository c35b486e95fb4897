package main

import (
	"fmt"
	"go/types"
	"strings"
)

type schemaRow struct{ typ, mode, ns, prefix, name, card, omit, dom string }

func (s schemaRow) key() string { return s.typ + " " + s.mode + " {" + s.ns + "}" + s.name }

func parseRow(l string) schemaRow {
	c := strings.Split(l, "\t")
	return schemaRow{c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]}
}

func reviewedSchema() []schemaRow {
	var out []schemaRow
	for _, l := range strings.Split(schemaTable, "\n") {
		if l != "" && l[0] != '#' {
			out = append(out, parseRow(l))
		}
	}
	return out
}

// area assigns a row to the property that decides it.
func (s schemaRow) area(scte map[string]bool) string {
	switch {
	case scte[s.typ]:
		return "C12"
	case s.ns != "-":
		return "C13"
	}
	return "C09"
}

// scteTypes: types declared in the SCTE-35 vocabulary: reachable from the
// elements that the event carries.
func (p *Program) scteTypes() map[string]bool {
	out := map[string]bool{}
	for _, n := range p.wire("SignalType", "SpliceInfoSectionType").order {
		out[n] = true
	}
	return out
}

// bitsOf orders the integer and float kinds by the values they hold.
var domainWidth = map[string][2]int{
	"uint8": {1, 8}, "uint16": {1, 16}, "uint32": {1, 32}, "uint": {1, 64}, "uint64": {1, 64}, "byte": {1, 8},
	"int8": {2, 8}, "int16": {2, 16}, "int32": {2, 32}, "int": {2, 64}, "int64": {2, 64},
	"float32": {3, 32}, "float64": {3, 64},
}

func wideEnough(have, want string) bool {
	if have == want {
		return true
	}
	h, ok1 := domainWidth[have]
	w, ok2 := domainWidth[want]
	return ok1 && ok2 && h[0] == w[0] && h[1] >= w[1]
}

// checkVocabulary compares the bindings of one area with the reviewed schema.
func (r *Report) checkVocabulary(area, nameRule, domRule, orderRule string) {
	m := r.P.wire("MPD", "Period")
	scte := r.P.scteTypes()
	// the type's name in Go is free: bind reviewed types by where they are used
	have := map[string]*wireField{}
	rowOf := map[string]schemaRow{}
	var haveKeys []string
	for _, l := range m.rows() {
		row := parseRow(l)
		if row.mode == "xmlname" && row.dom == "none" {
			continue
		}
		rowOf[row.key()] = row
		haveKeys = append(haveKeys, row.key())
	}
	for _, n := range m.order {
		for _, f := range m.types[n].fields {
			have[schemaRow{typ: n, mode: f.mode, ns: dash(f.ns), name: dash(f.path())}.key()] = f
		}
	}
	pos := func(k string) string {
		if f := have[k]; f != nil && f.pos != nil {
			return r.P.Pos(f.pos.Pos())
		}
		return ""
	}
	want := map[string]bool{}
	order := map[string][]string{}
	for _, w := range reviewedSchema() {
		want[w.key()] = true
		if w.area(scte) != area {
			continue
		}
		if w.mode == "elem" {
			order[w.typ] = append(order[w.typ], w.key())
		}
		h, ok := rowOf[w.key()]
		if !ok {
			d := ""
			for k, x := range rowOf {
				if x.typ == w.typ && x.name == w.name && !want[k] {
					d = fmt.Sprintf("; the model has it as %s in namespace %s", x.mode, x.ns)
				}
			}
			r.Ob(nameRule, w.key(), "", false, "the schema's %s %s of %s is not bound%s", w.mode, w.name, w.typ, d)
			continue
		}
		switch {
		case h.prefix != w.prefix:
			r.Ob(nameRule, w.key(), pos(w.key()), false, "prefix %q instead of the customary %q", h.prefix, w.prefix)
		default:
			r.Ob(nameRule, w.key(), pos(w.key()), true, "")
		}
		if w.mode == "xmlname" {
			continue
		}
		switch {
		case !wideEnough(h.dom, w.dom):
			r.Ob(domRule, w.key(), pos(w.key()), false, "holds %s where the schema's values need %s", h.dom, w.dom)
		case w.card == "*" && h.card != "*":
			r.Ob(domRule, w.key(), pos(w.key()), false, "may occur repeatedly but the field holds one")
		case w.card != "*" && h.card == "*":
			r.Ob(domRule, w.key(), pos(w.key()), false, "occurs at most once but the field is a list")
		default:
			r.Ob(domRule, w.key(), pos(w.key()), true, "")
		}
	}
	for _, k := range haveKeys {
		if row := rowOf[k]; !want[k] && row.area(scte) == area {
			r.Ob(nameRule, k, pos(k), false, "%s %s of %s is not part of the reviewed vocabulary", row.mode, row.name, row.typ)
		}
	}
	if orderRule == "" {
		return
	}
	for typ, ks := range order {
		w := m.types[typ]
		if w == nil || len(ks) < 2 {
			continue
		}
		at := map[string]int{}
		for i, f := range w.fields {
			at[schemaRow{typ: typ, mode: f.mode, ns: dash(f.ns), name: dash(f.path())}.key()] = i
		}
		ok := true
		for i := 1; i < len(ks); i++ {
			a, oka := at[ks[i-1]]
			b, okb := at[ks[i]]
			if oka && okb && a > b {
				ok = false
				r.Ob(orderRule, typ, pos(ks[i]), false, "%s is written before %s, the schema's sequence has it after", w.fields[b].path(), w.fields[a].path())
			}
		}
		if ok {
			r.Ob(orderRule, typ, r.P.Pos(w.named.Obj().Pos()), true, "%d child elements in schema order", len(ks))
		}
	}
}

// checkAbsence decides how unset and zero values are told apart.
func (r *Report) checkAbsence(rule string) {
	m := r.P.wire("MPD", "Period")
	rowOf := map[string]schemaRow{}
	pos := map[string]string{}
	for _, l := range m.rows() {
		row := parseRow(l)
		rowOf[row.key()] = row
	}
	for _, n := range m.order {
		for _, f := range m.types[n].fields {
			pos[schemaRow{typ: n, mode: f.mode, ns: dash(f.ns), name: dash(f.path())}.key()] = r.P.Pos(f.pos.Pos())
		}
	}
	for _, w := range reviewedSchema() {
		if w.mode != "attr" && w.mode != "elem" || w.card == "*" {
			continue
		}
		h, ok := rowOf[w.key()]
		if !ok {
			continue // decided by the vocabulary properties
		}
		cls := func(x schemaRow) string {
			switch {
			case x.card == "?":
				return "absent and zero are distinct" // a nil pointer is never written
			case x.omit == "omitempty":
				return "zero is written as absent"
			}
			return "always written"
		}
		if a, b := cls(h), cls(w); a != b {
			r.Ob(rule, w.key(), pos[w.key()], false, "%s, but should be: %s", a, b)
		} else {
			r.Ob(rule, w.key(), pos[w.key()], true, "%s", a)
		}
	}
}

// checkCodecAccepts decides that no type of the model is refused or mangled.
func (r *Report) checkCodecAccepts(rule string) {
	m := r.P.wire("MPD", "Period")
	scte := r.P.scteTypes()
	for _, n := range m.order {
		w := m.types[n]
		where := r.P.Pos(w.named.Obj().Pos())
		for _, p := range w.problems {
			r.Ob(rule, n+": "+p, where, false, "%s", p)
		}
		for i, f := range w.fields {
			name := fmt.Sprintf("%s.%s", n, f.goName)
			bad := m.codecProblem(f)
			if f.mode != "attr" && f.mode != "elem" && bad == "" {
				for _, g := range w.fields[:i] {
					if g.mode == f.mode {
						bad = "a second " + f.mode + " field"
					}
				}
			}
			if bad != "" {
				r.Ob(rule, name, r.P.Pos(f.pos.Pos()), false, "%s", bad)
			} else {
				r.Ob(rule, name, r.P.Pos(f.pos.Pos()), true, "")
			}
		}
		// unexported state
		var walk func(t types.Type)
		walk = func(t types.Type) {
			st := t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Embedded() {
					et := f.Type()
					if p, ok := types.Unalias(et).(*types.Pointer); ok {
						et = p.Elem()
						if !f.Exported() {
							r.Ob(rule, n+"."+f.Name(), r.P.Pos(f.Pos()), false, "the codec cannot set an unexported embedded pointer")
						}
					}
					if _, ok := et.Underlying().(*types.Struct); ok {
						walk(et)
						continue
					}
				}
				if f.Exported() || f.Name() == "_" {
					continue
				}
				pt, ok := types.Unalias(f.Type()).(*types.Pointer)
				up := false
				if ok {
					if nn, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
						up = m.types[nn.Obj().Name()] != nil && m.contains(nn.Obj().Name(), n)
					}
				}
				r.Ob(rule, n+"."+f.Name(), r.P.Pos(f.Pos()), up, "unexported field %s must be the link to the containing node", f.Name())
			}
		}
		walk(w.named)
		if scte[n] && w.xmlname == nil {
			continue
		}
	}
}

// contains: a node of type a holds children of type b.
func (m *wireModel) contains(a, b string) bool {
	for _, f := range m.types[a].fields {
		if nn, ok := types.Unalias(elemType(f.typ)).(*types.Named); ok && nn.Obj().Name() == b {
			return true
		}
	}
	return false
}

func (m *wireModel) codecProblem(f *wireField) string {
	if f.prefix != "" && f.ns == "" {
		return fmt.Sprintf("prefix %q without a namespace", f.prefix)
	}
	if !validName(f.name) && (f.mode == "attr" || f.mode == "elem") {
		return fmt.Sprintf("%q is not an XML name", f.name)
	}
	t := f.typ
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	hooks := func(t types.Type, a, b string) (bool, string) {
		h := m.hooks(t)
		if h[a] != h[b] {
			return false, fmt.Sprintf("%s has only one of %s and %s", typeStr(t), a, b)
		}
		return h[a], ""
	}
	scalar := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat|types.IsString) != 0 && b.Kind() != types.Uintptr || isByteSlice(t.Underlying())
	}
	switch f.mode {
	case "attr":
		ok, bad := hooks(t, "MarshalXMLAttr", "UnmarshalXMLAttr")
		if bad != "" {
			return bad
		}
		if ok {
			return ""
		}
		ok, bad = hooks(t, "MarshalText", "UnmarshalText")
		if bad != "" {
			return bad
		}
		if ok || scalar(t) {
			return ""
		}
		return fmt.Sprintf("%s is not a single attribute value", typeStr(f.typ))
	case "chardata", "cdata", "comment", "innerxml":
		ok, bad := hooks(t, "MarshalText", "UnmarshalText")
		if bad != "" {
			return bad
		}
		if f.mode == "chardata" && ok || scalar(t) {
			if f.mode == "innerxml" || f.mode == "comment" {
				if b, isB := t.Underlying().(*types.Basic); isB && b.Kind() != types.String {
					return "not text"
				}
			}
			return ""
		}
		return fmt.Sprintf("%s is not text", typeStr(f.typ))
	case "anyattr":
		if s, ok := f.typ.Underlying().(*types.Slice); ok {
			if n, ok := types.Unalias(s.Elem()).(*types.Named); ok && n.Obj().Name() == "Attr" && n.Obj().Pkg() == m.p.XML.Pkg {
				return ""
			}
		}
		return "a catch-all for attributes must be []xml.Attr"
	}
	et := elemType(t)
	for _, h := range [][2]string{{"MarshalXML", "UnmarshalXML"}, {"MarshalText", "UnmarshalText"}} {
		if ok, bad := hooks(et, h[0], h[1]); bad != "" {
			return bad
		} else if ok {
			return ""
		}
	}
	if h := m.hooks(et); h["MarshalXMLAttr"] || h["UnmarshalXMLAttr"] {
		return fmt.Sprintf("%s has its own attribute form only, as an element the codec would use its Go form", typeStr(et))
	}
	if scalar(et) {
		return ""
	}
	if _, ok := et.Underlying().(*types.Struct); ok {
		if n, ok := types.Unalias(et).(*types.Named); !ok || n.Obj().Pkg() != m.p.MPD.Pkg {
			return fmt.Sprintf("%s is not a type of the model", typeStr(et))
		}
		return ""
	}
	return fmt.Sprintf("%s cannot be an element", typeStr(f.typ))
}

func validName(s string) bool {
	for i, c := range s {
		if c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c >= '0' && c <= '9' || c == '-' || c == '.') || c >= 0xc0 {
			continue
		}
		if c == '>' && i > 0 {
			continue
		}
		return false
	}
	return s != ""
}

func init() {
	register("C09", func(r *Report) {
		r.Rule("name", "the schema's attribute, element or text of the type is bound under exactly its name and kind, and nothing else is")
		r.Rule("value-domain", "the field holds every value and every repetition the schema allows")
		r.Rule("sequence", "child elements come in the order of the schema's sequence, inherited ones first")
		r.checkVocabulary("C09", "name", "value-domain", "sequence")
		r.Floor("name", 500)
		r.Floor("value-domain", 480)
		r.Floor("sequence", 15)
	})
	register("C10", func(r *Report) {
		r.xmlPart("C10")
		r.Rule("accepted", "the codec's rules for struct definitions accept the field, keep all of it, and convert it in both directions")
		r.Rule("conversion", "the custom attribute conversion equals the reference")
		r.checkCodecAccepts("accepted")
		r.Floor("accepted", 700)
		r.equivalence("conversion", "StringNoWhitespaceVectorType_MarshalXMLAttr", 0)
		r.equivalence("conversion", "StringNoWhitespaceVectorType_UnmarshalXMLAttr")
	})
	register("C11", func(r *Report) {
		r.xmlPart("C11")
		r.Rule("absence", "the field's kind and options give the distinction between absent and zero that the schema needs")
		r.checkAbsence("absence")
		r.Floor("absence", 500)
	})
	register("C12", func(r *Report) {
		r.xmlPart("C12")
		r.Rule("name", "the SCTE-35 attribute, element or text is bound under exactly its name and kind, and element names keep the namespace they were read with")
		r.Rule("value-domain", "the field holds every value and every repetition the schema allows")
		r.Rule("constructor", "the constructor sets the canonical namespace and the element's own name")
		r.Rule("sequence", "child elements come in the order of the SCTE-35 sequence")
		r.checkVocabulary("C12", "name", "value-domain", "sequence")
		r.Floor("name", 130)
		for _, n := range []string{"NewSignal", "NewSpliceInfoSection", "NewBinary", "NewSpliceNull", "NewSpliceSchedule", "NewSpliceInsert", "NewTimeSignal",
			"NewBandwidthReservation", "NewPrivateCommand", "NewSpliceTime", "NewBreakDuration", "NewSegmentationDescriptor", "NewSegmentationUpid"} {
			r.equivalence("constructor", n)
		}
	})
	register("C13", func(r *Report) {
		r.xmlPart("C13")
		r.Rule("name", "the foreign attribute or element is bound in exactly its namespace, under its name and customary prefix")
		r.Rule("value-domain", "the field holds every value and every repetition the specification allows")
		r.checkVocabulary("C13", "name", "value-domain", "")
		r.Floor("name", 40)
	})
}

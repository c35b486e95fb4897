# Further edits of marshal.go and typeinfo.go that keep the behaviour.
M = "xml/marshal.go"
T = "xml/typeinfo.go"
R = {}


def r(name, *reps):
    R["v-" + name] = list(reps)


AT = (M, "func isEmptyValue(")


def add(name, text, *reps):
    r(name, *reps, (M, "func isEmptyValue(", text + "\nfunc isEmptyValue("))


def addt(name, text, *reps):
    r(name, *reps, (T, "// lookupXMLName returns", text + "\n// lookupXMLName returns"))


add("tok-write", """
// raw writes the parts as they are.
func (p *printer) raw(parts ...string) {
	for _, s := range parts {
		p.WriteString(s)
	}
}
""", (M, """		p.WriteString("<?")
		p.WriteString(t.Target)
		if""", """		p.raw("<?", t.Target)
		if"""))
add("tok-procinst", """
// procInst writes a processing instruction.
func (p *printer) procInst(t ProcInst) error {
	// First token to be encoded which is also a ProcInst with target of xml
	// is the xml declaration. The only ProcInst where target of xml is allowed.
	switch {
	case t.Target == "xml" && p.w.Buffered() != 0:
		return fmt.Errorf("xml: EncodeToken of ProcInst xml target only valid for xml declaration, first token encoded")
	case !isNameString(t.Target):
		return fmt.Errorf("xml: EncodeToken of ProcInst with invalid Target")
	case bytes.Contains(t.Inst, endProcInst):
		return fmt.Errorf("xml: EncodeToken of ProcInst containing ?> marker")
	}
	p.WriteString("<?")
	p.WriteString(t.Target)
	if len(t.Inst) > 0 {
		p.WriteByte(' ')
		p.Write(t.Inst)
	}
	p.WriteString("?>")
	return p.cachedWriteError()
}
""", (M, """		// First token to be encoded which is also a ProcInst with target of xml
		// is the xml declaration. The only ProcInst where target of xml is allowed.
		if t.Target == "xml" && p.w.Buffered() != 0 {
			return fmt.Errorf("xml: EncodeToken of ProcInst xml target only valid for xml declaration, first token encoded")
		}
		if !isNameString(t.Target) {
			return fmt.Errorf("xml: EncodeToken of ProcInst with invalid Target")
		}
		if bytes.Contains(t.Inst, endProcInst) {
			return fmt.Errorf("xml: EncodeToken of ProcInst containing ?> marker")
		}
		p.WriteString("<?")
		p.WriteString(t.Target)
		if len(t.Inst) > 0 {
			p.WriteByte(' ')
			p.Write(t.Inst)
		}
		p.WriteString("?>")
""", """		return p.procInst(t)
"""))
r("dir-prefix", (M, """			if i+len(begComment) < len(dir) && bytes.Equal(dir[i:i+len(begComment)], begComment) {
				incomment = true
			} else {
				depth++
			}
""", """			if end := i + len(begComment); end < len(dir) && bytes.Equal(dir[i:end], begComment) {
				incomment = true
				continue
			}
			depth++
"""))
r("dir-if", (M, """		switch {
		case incomment:
			if c == '>' {
				if n := 1 + i - len(endComment); n >= 0 && bytes.Equal(dir[n:i+1], endComment) {
					incomment = false
				}
			}
			// Just ignore anything in comment
		case inquote != 0:
			if c == inquote {
				inquote = 0
			}
			// Just ignore anything within quotes
		case c""", """		if incomment {
			// Just ignore anything in comment
			if n := i - len(endComment) + 1; c == '>' && n >= 0 {
				incomment = !bytes.Equal(dir[n:i+1], endComment)
			}
			continue
		}
		if inquote != 0 {
			// Just ignore anything within quotes
			if c == inquote {
				inquote = 0
			}
			continue
		}
		switch {
		case c"""))
r("newelement", (M, """	var e element
	e.xmlns = name.Space
	e.prefix, e.name = splitPrefixed(name.Local)
	return e
""", """	prefix, local := splitPrefixed(name.Local)
	return element{xmlns: name.Space, prefix: prefix, name: local}
"""))
r("splitprefix", (M, """	i := strings.Index(prefixed, ":")
	if i < 1 || i > len(prefixed)-2 {
		return "", prefixed
	}
	return prefixed[:i], prefixed[i+1:]
""", """	if i := strings.Index(prefixed, ":"); 0 < i && i+1 < len(prefixed) {
		prefix, name = prefixed[:i], prefixed[i+1:]
	} else {
		name = prefixed
	}
	return prefix, name
"""))
r("joinprefix", (M, """	if prefix == "" {
		return name
	}
	return prefix + ":" + name
""", """	if prefix != "" {
		name = prefix + ":" + name
	}
	return name
"""))
add("getprefix", """
// hidden: an element from i on gives the prefix another meaning.
func (p *printer) hidden(prefix string, i int) bool {
	for ; i < len(p.elements); i++ {
		if p.elements[i].prefixToNS[prefix] != "" {
			return true
		}
	}
	return false
}
""", (M, """			// Look for prefix collision deeper in the tree
			for i++; i < len(p.elements); i++ {
				if p.elements[i].prefixToNS[prefix] != "" {
					return ""
				}
			}
			return prefix
""", """			// Look for prefix collision deeper in the tree
			if p.hidden(prefix, i+1) {
				return ""
			}
			return prefix
"""))
r("getprefix-if", (M, """	switch uri {
	case xmlURL:
		// The "http://www.w3.org/XML/1998/namespace" namespace is predefined as "xml"
		// and must be referred to that way.
		return xmlPrefix
	case xmlnsURL:
		// (The "http://www.w3.org/2000/xmlns/" namespace is also predefined as "xmlns",
		// but users should not be trying to use that one directly - that's our job.)
		return xmlnsPrefix
	}
	for i := len(p.elements) - 1; i >= 0; i-- {
		prefix := p.elements[i].nsToPrefix[uri]
		if prefix != "" {
""", """	// (The "http://www.w3.org/2000/xmlns/" namespace is also predefined as "xmlns",
	// but users should not be trying to use that one directly - that's our job.)
	if uri == xmlnsURL {
		return xmlnsPrefix
	}
	// The "http://www.w3.org/XML/1998/namespace" namespace is predefined as "xml"
	// and must be referred to that way.
	if uri == xmlURL {
		return xmlPrefix
	}
	for i := len(p.elements); i > 0; {
		i--
		if prefix := p.elements[i].nsToPrefix[uri]; prefix != "" {
"""))
add("createprefix-name", """
// prefixFor proposes a prefix for the URI.
func prefixFor(base string) string {
	// Try to use the final element of the path but fall back to _.
	if i := strings.LastIndex(base, "/"); i >= 0 {
		base = base[i+1:]
	}
	switch {
	case base == "", !isName([]byte(base)), strings.Contains(base, ":"):
		base = "_"
	}
	// xmlanything is reserved and any variant of it regardless of
	// case should be matched, so:
	//    (('X'|'x') ('M'|'m') ('L'|'l'))
	// See Section 2.3 of https://www.w3.org/TR/REC-xml/
	if len(base) >= len("xml") && strings.EqualFold(base[:len("xml")], "xml") {
		return "_" + base
	}
	return base
}
""", (M, """	if i := strings.LastIndex(prefix, "/"); i >= 0 {
		prefix = prefix[i+1:]
	}
	if prefix == "" || !isName([]byte(prefix)) || strings.Contains(prefix, ":") {
		prefix = "_"
	}
	// xmlanything is reserved and any variant of it regardless of
	// case should be matched, so:
	//    (('X'|'x') ('M'|'m') ('L'|'l'))
	// See Section 2.3 of https://www.w3.org/TR/REC-xml/
	if len(prefix) >= 3 && strings.EqualFold(prefix[:3], "xml") {
		prefix = "_" + prefix
	}
	if e""", """	prefix = prefixFor(prefix)
	if e"""))
r("createprefix-seq", (M, """		for p.seq++; ; p.seq++ {
			if id := prefix + "_" + strconv.Itoa(p.seq); e.prefixToNS[id] == "" {
				prefix = id
				break
			}
		}
""", """		base := prefix
		for e.prefixToNS[prefix] != "" {
			p.seq++
			prefix = base + "_" + strconv.Itoa(p.seq)
		}
"""))
r("createprefix-maps", (M, """	if e.nsToPrefix == nil {
		e.nsToPrefix = make(map[string]string)
		e.prefixToNS = make(map[string]string)
	}
""", """	if e.nsToPrefix == nil {
		e.nsToPrefix, e.prefixToNS = map[string]string{}, map[string]string{}
	}
"""), (M, """	if e.nsToPrefix[uri] == "" {
		e.nsToPrefix[uri] = prefix
	}
	e.prefixToNS[prefix] = uri
""", """	e.prefixToNS[prefix] = uri
	if _, ok := e.nsToPrefix[uri]; !ok || e.nsToPrefix[uri] == "" {
		e.nsToPrefix[uri] = prefix
	}
"""))
add("name-func", """
// elementName picks the name of the element for a value of type typ.
func elementName(typ reflect.Type) string {
	name := typ.Name()
	if i := strings.IndexByte(name, '['); i >= 0 {
		// Truncate generic instantiation name. See issue 48318.
		return name[:i]
	}
	return name
}
""", (M, """		name := typ.Name()
		if i := strings.IndexByte(name, '['); i >= 0 {
			// Truncate generic instantiation name. See issue 48318.
			name = name[:i]
		}
		if name == "" {
			return &UnsupportedTypeError{typ}
		}
		start.Name.Local = name
""", """		if start.Name.Local = elementName(typ); start.Name.Local == "" {
			return &UnsupportedTypeError{typ}
		}
"""))
add("attrs-func", """
// marshalAttrs adds the attributes of val to start.
func (p *printer) marshalAttrs(start *StartElement, tinfo *typeInfo, val reflect.Value) error {
	for i := range tinfo.fields {
		finfo := &tinfo.fields[i]
		if finfo.flags&fAttr == 0 {
			continue
		}
		fv := finfo.value(val, dontInitNilPointers)
		switch {
		case !fv.IsValid():
			continue
		case finfo.flags&fOmitEmpty != 0 && isEmptyValue(fv):
			continue
		case fv.Kind() == reflect.Interface && fv.IsNil():
			continue
		}
		name := Name{finfo.xmlns, joinPrefixed(finfo.prefix, finfo.name)}
		if err := p.marshalAttr(start, name, fv); err != nil {
			return err
		}
	}
	return nil
}
""", (M, """	for i := range tinfo.fields {
		finfo := &tinfo.fields[i]
		if finfo.flags&fAttr == 0 {
			continue
		}

		fv := finfo.value(val, dontInitNilPointers)

		if !fv.IsValid() || finfo.flags&fOmitEmpty != 0 && isEmptyValue(fv) {
			continue
		}

		if fv.Kind() == reflect.Interface && fv.IsNil() {
			continue
		}

		name := Name{Space: finfo.xmlns, Local: joinPrefixed(finfo.prefix, finfo.name)}
		if err := p.marshalAttr(&start, name, fv); err != nil {
			return err
		}
	}
""", """	if err := p.marshalAttrs(&start, tinfo, val); err != nil {
		return err
	}
"""))
add("content-func", """
// marshalContent writes what is between the tags.
func (p *printer) marshalContent(tinfo *typeInfo, typ reflect.Type, val reflect.Value) error {
	if val.Kind() == reflect.Struct {
		return p.marshalStruct(tinfo, val)
	}
	s, b, err := p.marshalSimple(typ, val)
	switch {
	case err != nil:
		return err
	case b != nil:
		EscapeText(p, b)
	default:
		p.EscapeString(s)
	}
	return nil
}
""", (M, """	if val.Kind() == reflect.Struct {
		err = p.marshalStruct(tinfo, val)
	} else {
		s, b, err1 := p.marshalSimple(typ, val)
		if err1 != nil {
			err = err1
		} else if b != nil {
			EscapeText(p, b)
		} else {
			p.EscapeString(s)
		}
	}
	if err != nil {
		return err
	}
""", """	if err := p.marshalContent(tinfo, typ, val); err != nil {
		return err
	}
"""))
r("drill-indirect", (M, """	for val.Kind() == reflect.Interface || val.Kind() == reflect.Pointer {
		if val.IsNil() {
			return nil
		}
		val = val.Elem()
	}

	kind""", """	val = indirect(val)
	if k := val.Kind(); k == reflect.Interface || k == reflect.Pointer {
		return nil
	}

	kind"""))
add("marshaler-of", """
// addressOf is the address of val, as far as it may be used.
func addressOf(val reflect.Value) (reflect.Value, bool) {
	if !val.CanAddr() {
		return reflect.Value{}, false
	}
	pv := val.Addr()
	return pv, pv.CanInterface()
}
""", (M, """	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && ti.addrMarshaler {
			return p.marshalInterface(""", """	{
		if pv, ok := addressOf(val); ok && ti.addrMarshaler {
			return p.marshalInterface("""), (M, """	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && ti.addrTextMarshaler {
			return p.marshalTextInterface(""", """	{
		if pv, ok := addressOf(val); ok && ti.addrTextMarshaler {
			return p.marshalTextInterface("""))
r("slice-range", (M, """		for i, n := 0, val.Len(); i < n; i++ {
			if err := p.marshalValue(val.Index(i), finfo, startTemplate); err != nil {
				return err
			}
		}
		return nil
""", """		for i := range val.Len() {
			err := p.marshalValue(val.Index(i), finfo, startTemplate)
			if err != nil {
				return err
			}
		}
		return nil
"""))
add("attr-text", """
// textAttr adds an attribute with the text of m.
func textAttr(start *StartElement, name Name, m encoding.TextMarshaler) error {
	text, err := m.MarshalText()
	if err == nil {
		start.Attr = append(start.Attr, Attr{Name: name, Value: string(text)})
	}
	return err
}
""", (M, """		text, err := val.Interface().(encoding.TextMarshaler).MarshalText()
		if err != nil {
			return err
		}
		start.Attr = append(start.Attr, Attr{name, string(text)})
		return nil
""", """		return textAttr(start, name, val.Interface().(encoding.TextMarshaler))
"""), (M, """			text, err := pv.Interface().(encoding.TextMarshaler).MarshalText()
			if err != nil {
				return err
			}
			start.Attr = append(start.Attr, Attr{name, string(text)})
			return nil
""", """			return textAttr(start, name, pv.Interface().(encoding.TextMarshaler))
"""))
r("attr-deref", (M, """	switch val.Kind() {
	case reflect.Pointer, reflect.Interface:
		if val.IsNil() {
			return nil
		}
		val = val.Elem()
	}
""", """	if k := val.Kind(); k == reflect.Pointer || k == reflect.Interface {
		if val.IsNil() {
			return nil
		}
		val = val.Elem()
	}
"""), (M, """	if b != nil {
		s = string(b)
	}
	start.Attr = append(start.Attr, Attr{name, s})
	return nil
""", """	attr := Attr{Name: name, Value: s}
	if b != nil {
		attr.Value = string(b)
	}
	start.Attr = append(start.Attr, attr)
	return nil
"""))
r("defaultstart", (M, """	var start StartElement
	// Precedence for the XML element name is as above,
	// except that we do not look inside structs for the first field.
	if startTemplate != nil {
		start.Name = startTemplate.Name
		start.Attr = append(start.Attr, startTemplate.Attr...)
	} else if finfo != nil && finfo.name != "" {
		start.Name.Local = joinPrefixed(finfo.prefix, finfo.name)
		start.Name.Space = finfo.xmlns
	} else if typ.Name() != "" {
		start.Name.Local = typ.Name()
	} else {
		// Must be a pointer to a named type,
		// since it has the Marshaler methods.
		start.Name.Local = typ.Elem().Name()
	}
	return start
""", """	// Precedence for the XML element name is as above,
	// except that we do not look inside structs for the first field.
	if startTemplate != nil {
		return StartElement{Name: startTemplate.Name, Attr: append([]Attr(nil), startTemplate.Attr...)}
	}
	if finfo != nil && finfo.name != "" {
		return StartElement{Name: Name{Space: finfo.xmlns, Local: joinPrefixed(finfo.prefix, finfo.name)}}
	}
	local := typ.Name()
	if local == "" {
		// Must be a pointer to a named type,
		// since it has the Marshaler methods.
		local = typ.Elem().Name()
	}
	return StartElement{Name: Name{Local: local}}
"""))
add("ws-defined", """
// inScope: the namespace is the default one, by the tag's own declaration.
func declares(attrs []Attr, ns string) bool {
	for _, attr := range attrs {
		if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == ns {
			return true
		}
	}
	return false
}

// inherits: an enclosing element has the namespace without a prefix.
func (p *printer) inherits(ns string) bool {
	for i := len(p.elements) - 2; i >= 0; i-- {
		if o := &p.elements[i]; o.prefix == "" && o.xmlns == ns {
			return true
		}
	}
	return false
}
""", (M, """		for _, attr := range start.Attr {
			if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {
				spaceDefined = true
				break
			}
		}
		// Walk up the tree to see if a default namespace is already defined without a prefix.
		if !spaceDefined && e.prefix == "" {
			for i := len(p.elements) - 2; i >= 0; i-- {
				if p.elements[i].prefix == "" && p.elements[i].xmlns == e.xmlns {
					spaceDefined = true
					break
				}
			}
		}
""", """		// Walk up the tree to see if a default namespace is already defined without a prefix.
		spaceDefined = declares(start.Attr, e.xmlns) || e.prefix == "" && p.inherits(e.xmlns)
"""))
add("ws-tag", """
// quoted writes a value between quotes.
func (p *printer) quoted(s string) {
	p.WriteString(`="`)
	p.EscapeString(s)
	p.WriteByte('"')
}
""", (M, """	p.WriteString(prefix)
	p.WriteString(`="`)
	p.EscapeString(uri)
	p.WriteByte('"')
""", """	p.WriteString(prefix)
	p.quoted(uri)
"""), (M, """		p.WriteString(local)
		p.WriteString(`="`)
		p.EscapeString(attr.Value)
		p.WriteByte('"')
""", """		p.WriteString(local)
		p.quoted(attr.Value)
"""))
add("ws-attr", """
// writeAttr writes one attribute of a start tag.
func (p *printer) writeAttr(attr *Attr) {
	prefix, local := splitPrefixed(attr.Name.Local)
	p.WriteByte(' ')
	switch space := attr.Name.Space; space {
	case "":
	case xmlnsURL:
		p.createPrefix(attr.Value, local)
		p.WriteString(xmlnsPrefix)
		p.WriteByte(':')
	default:
		prefix, created := p.createPrefix(space, prefix)
		if created {
			p.writePrefixAttr(prefix, space)
			p.WriteByte(' ')
		}
		p.WriteString(prefix)
		p.WriteByte(':')
	}
	p.WriteString(local)
	p.WriteString(`="`)
	p.EscapeString(attr.Value)
	p.WriteByte('"')
}
""", (M, """		prefix, local := splitPrefixed(attr.Name.Local)
		p.WriteByte(' ')
		if attr.Name.Space == xmlnsURL {
			p.createPrefix(attr.Value, local)
			p.WriteString(xmlnsPrefix)
			p.WriteByte(':')
		} else if attr.Name.Space != "" {
			var prefixCreated bool
			prefix, prefixCreated = p.createPrefix(attr.Name.Space, prefix)
			if prefixCreated {
				p.writePrefixAttr(prefix, attr.Name.Space)
				p.WriteByte(' ')
			}
			p.WriteString(prefix)
			p.WriteByte(':')
		}
		p.WriteString(local)
		p.WriteString(`="`)
		p.EscapeString(attr.Value)
		p.WriteByte('"')
	}
	p.WriteByte('>')
""", """		p.writeAttr(&attr)
	}
	p.WriteByte('>')
"""))
r("ws-prefix-first", (M, """		if !spaceDefined && e.prefix == "" {
			e.prefix = p.getPrefix(e.xmlns)
			if e.prefix != "" {
				spaceDefined = true
			}
		}
""", """		if !spaceDefined && e.prefix == "" {
			e.prefix = p.getPrefix(e.xmlns)
			spaceDefined = e.prefix != ""
		}
"""))
r("we-top", (M, """	if len(p.elements) == 0 || p.elements[len(p.elements)-1].name == "" {
		return fmt.Errorf("xml: end tag </%s> without start tag", name.Local)
	}
	e := p.elements[len(p.elements)-1]
""", """	top := len(p.elements) - 1
	if top < 0 || p.elements[top].name == "" {
		return fmt.Errorf("xml: end tag </%s> without start tag", name.Local)
	}
	e := &p.elements[top]
"""), (M, """	// Pop elements stack
	p.elements = p.elements[:len(p.elements)-1]
	return nil
}

func (p *printer) marshalSimple""", """	// Pop elements stack
	p.elements = p.elements[:top]
	return nil
}

func (p *printer) marshalSimple"""))
r("simple-array", (M, """		var bytes []byte
		if val.CanAddr() {
			bytes = val.Bytes()
		} else {
			bytes = make([]byte, val.Len())
			reflect.Copy(reflect.ValueOf(bytes), val)
		}
		return "", bytes, nil
""", """		if val.CanAddr() {
			return "", val.Bytes(), nil
		}
		data := make([]byte, val.Len())
		reflect.Copy(reflect.ValueOf(data), val)
		return "", data, nil
"""), (M, """	case reflect.Slice:
		if typ.Elem().Kind() != reflect.Uint8 {
			break
		}
		// []byte
		return "", val.Bytes(), nil
	}
""", """	case reflect.Slice:
		if typ.Elem().Kind() == reflect.Uint8 {
			// []byte
			return "", val.Bytes(), nil
		}
	}
"""))
r("indirect-loop", (M, """	for vf.Kind() == reflect.Interface || vf.Kind() == reflect.Pointer {
		if vf.IsNil() {
			return vf
		}
		vf = vf.Elem()
	}
	return vf
""", """	for {
		k := vf.Kind()
		if k != reflect.Interface && k != reflect.Pointer || vf.IsNil() {
			return vf
		}
		vf = vf.Elem()
	}
"""))
add("ms-comment", """
// writeComment writes a comment with that text.
func (p *printer) writeComment(dashDash, dashLast bool, write func()) error {
	if !dashDash {
		write()
	}
	if dashDash {
		return fmt.Errorf(`xml: comments must not contain "--"`)
	}
	if dashLast {
		// "--->" is invalid grammar. Make it "- -->"
		p.WriteByte(' ')
	}
	p.WriteString("-->")
	return nil
}
""", (M, """			dashDash := false
			dashLast := false
			switch k {
			case reflect.String:
				s := vf.String()
				dashDash = strings.Contains(s, "--")
				dashLast = s[len(s)-1] == '-'
				if !dashDash {
					p.WriteString(s)
				}
			case reflect.Slice:
				b := vf.Bytes()
				dashDash = bytes.Contains(b, ddBytes)
				dashLast = b[len(b)-1] == '-'
				if !dashDash {
					p.Write(b)
				}
			default:
				panic("can't happen")
			}
			if dashDash {
				return fmt.Errorf(`xml: comments must not contain "--"`)
			}
			if dashLast {
				// "--->" is invalid grammar. Make it "- -->"
				p.WriteByte(' ')
			}
			p.WriteString("-->")
			continue
""", """			var err error
			switch k {
			case reflect.String:
				s := vf.String()
				err = p.writeComment(strings.Contains(s, "--"), s[len(s)-1] == '-', func() { p.WriteString(s) })
			case reflect.Slice:
				b := vf.Bytes()
				err = p.writeComment(bytes.Contains(b, ddBytes), b[len(b)-1] == '-', func() { p.Write(b) })
			default:
				panic("can't happen")
			}
			if err != nil {
				return err
			}
			continue
"""))
add("ms-chardata", """
// charData is the text of a value, and whether there is any to write.
func charData(scratch []byte, vf reflect.Value) ([]byte, bool) {
	switch vf.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.AppendInt(scratch, vf.Int(), 10), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.AppendUint(scratch, vf.Uint(), 10), true
	case reflect.Float32, reflect.Float64:
		return strconv.AppendFloat(scratch, vf.Float(), 'g', -1, vf.Type().Bits()), true
	case reflect.Bool:
		return strconv.AppendBool(scratch, vf.Bool()), true
	case reflect.String:
		return []byte(vf.String()), true
	case reflect.Slice:
		elem, ok := vf.Interface().([]byte)
		return elem, ok
	}
	return nil, false
}
""", (M, """			switch vf.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				if err := emit(p, strconv.AppendInt(scratch[:0], vf.Int(), 10)); err != nil {
					return err
				}
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
				if err := emit(p, strconv.AppendUint(scratch[:0], vf.Uint(), 10)); err != nil {
					return err
				}
			case reflect.Float32, reflect.Float64:
				if err := emit(p, strconv.AppendFloat(scratch[:0], vf.Float(), 'g', -1, vf.Type().Bits())); err != nil {
					return err
				}
			case reflect.Bool:
				if err := emit(p, strconv.AppendBool(scratch[:0], vf.Bool())); err != nil {
					return err
				}
			case reflect.String:
				if err := emit(p, []byte(vf.String())); err != nil {
					return err
				}
			case reflect.Slice:
				if elem, ok := vf.Interface().([]byte); ok {
					if err := emit(p, elem); err != nil {
						return err
					}
				}
			}
			continue
""", """			if data, ok := charData(scratch[:0], vf); ok {
				if err := emit(p, data); err != nil {
					return err
				}
			}
			continue
"""))
r("ms-push", (M, """			if len(finfo.parents) > len(s.stack) {
				if vf.Kind() != reflect.Pointer && vf.Kind() != reflect.Interface || !vf.IsNil() {
					if err := s.push(finfo.parents[len(s.stack):]); err != nil {
						return err
					}
				}
			}
""", """			k := vf.Kind()
			present := k != reflect.Pointer && k != reflect.Interface || !vf.IsNil()
			if n := len(s.stack); n < len(finfo.parents) && present {
				if err := s.push(finfo.parents[n:]); err != nil {
					return err
				}
			}
"""))
r("ms-inner", (M, """			iface := vf.Interface()
			switch raw := iface.(type) {
			case []byte:
				p.Write(raw)
				continue
			case string:
				p.WriteString(raw)
				continue
			}
""", """			iface := vf.Interface()
			if raw, ok := iface.(string); ok {
				p.WriteString(raw)
				continue
			}
			if raw, ok := iface.([]byte); ok {
				p.Write(raw)
				continue
			}
"""))
add("closed-helper", """
// ready: what is written next may go to the writer.
func (p *printer) ready() bool {
	if p.err == nil && p.closed {
		p.err = errors.New("use of closed Encoder")
	}
	return p.err == nil
}
""", (M, """	if p.closed && p.err == nil {
		p.err = errors.New("use of closed Encoder")
	}
	if p.err == nil {
		n, p.err = p.w.Write(b)
	}
""", """	if p.ready() {
		n, p.err = p.w.Write(b)
	}
"""), (M, """	if p.closed && p.err == nil {
		p.err = errors.New("use of closed Encoder")
	}
	if p.err == nil {
		n, p.err = p.w.WriteString(s)
	}
""", """	if p.ready() {
		n, p.err = p.w.WriteString(s)
	}
"""), (M, """	if p.closed && p.err == nil {
		p.err = errors.New("use of closed Encoder")
	}
	if p.err == nil {
		p.err = p.w.WriteByte(c)
	}
""", """	if p.ready() {
		p.err = p.w.WriteByte(c)
	}
"""))
r("indent-range", (M, """	if len(p.prefix) > 0 {
		p.WriteString(p.prefix)
	}
	if len(p.indent) > 0 {
		for i := 0; i < p.depth; i++ {
			p.WriteString(p.indent)
		}
	}
""", """	if p.prefix != "" {
		p.WriteString(p.prefix)
	}
	if p.indent != "" {
		for range p.depth {
			p.WriteString(p.indent)
		}
	}
"""))
r("indent-switch", (M, """	if depthDelta < 0 {
		p.depth--
		if p.indentedIn {
			p.indentedIn = false
			return
		}
		p.indentedIn = false
	}
	if p.putNewline {
		p.WriteByte('\\n')
	} else {
		p.putNewline = true
	}
""", """	if depthDelta < 0 {
		p.depth--
		wasIn := p.indentedIn
		p.indentedIn = false
		if wasIn {
			return
		}
	}
	if p.putNewline {
		p.WriteByte('\\n')
	}
	p.putNewline = true
"""))
r("trim-common", (M, """	split := 0
	for ; split < len(parents) && split < len(s.stack); split++ {
		if parents[split] != s.stack[split] {
			break
		}
	}
""", """	split := 0
	for split < len(parents) && split < len(s.stack) && parents[split] == s.stack[split] {
		split++
	}
"""))
r("trim-min", (M, """	split := 0
	for ; split < len(parents) && split < len(s.stack); split++ {
		if parents[split] != s.stack[split] {
			break
		}
	}
""", """	split, n := 0, min(len(parents), len(s.stack))
	for ; split < n; split++ {
		if parents[split] != s.stack[split] {
			break
		}
	}
"""))
r("push-range", (M, """	for i := range parents {
		if err := s.p.writeStart(&StartElement{Name: Name{Local: parents[i]}}); err != nil {
			return err
		}
	}
""", """	for _, parent := range parents {
		start := StartElement{Name: Name{Local: parent}}
		if err := s.p.writeStart(&start); err != nil {
			return err
		}
	}
"""))
r("empty-switch", (M, """	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Bool,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64,
		reflect.Interface, reflect.Pointer:
		return v.IsZero()
	}
	return false
""", """	k := v.Kind()
	switch {
	case k == reflect.Array || k == reflect.Map || k == reflect.Slice || k == reflect.String:
		return v.Len() == 0
	case reflect.Bool <= k && k <= reflect.Float64, k == reflect.Interface, k == reflect.Pointer:
		return v.IsZero()
	default:
		return false
	}
"""))
r("release-zero", (M, """	enc.p.seq = 0
	enc.p.indent = ""
	enc.p.prefix = ""
	enc.p.depth = 0
	enc.p.indentedIn = false
	enc.p.putNewline = false
	enc.p.closed = false
	enc.p.err = nil
	// Truncate the elements slice without releasing its backing array.
	enc.p.elements = enc.p.elements[:0]
	encoderPool.Put(enc)
""", """	p := &enc.p
	p.err, p.closed = nil, false
	p.seq, p.depth = 0, 0
	p.indent, p.prefix = "", ""
	p.indentedIn, p.putNewline = false, false
	// Truncate the elements slice without releasing its backing array.
	p.elements = p.elements[:0]
	encoderPool.Put(enc)
"""))
r("release-whole", (M, """	// Clear all mutable printer state.
	enc.p.seq = 0
	enc.p.indent = ""
	enc.p.prefix = ""
	enc.p.depth = 0
	enc.p.indentedIn = false
	enc.p.putNewline = false
	enc.p.closed = false
	enc.p.err = nil
	// Truncate the elements slice without releasing its backing array.
	enc.p.elements = enc.p.elements[:0]
	encoderPool.Put(enc)
""", """	// Clear all mutable printer state, but
	// truncate the elements slice without releasing its backing array.
	enc.p = printer{w: enc.p.w, encoder: enc, elements: enc.p.elements[:0]}
	encoderPool.Put(enc)
"""))
add("release-method", """
// reset forgets all mutable printer state.
func (p *printer) reset(w io.Writer) {
	p.w.Reset(w)
	p.seq, p.depth = 0, 0
	p.indent, p.prefix = "", ""
	p.indentedIn, p.putNewline = false, false
	p.closed, p.err = false, nil
	p.elements = p.elements[:0]
}
""", (M, """	enc.p.w.Reset(io.Discard)
	// Clear all mutable printer state.
	enc.p.seq = 0
	enc.p.indent = ""
	enc.p.prefix = ""
	enc.p.depth = 0
	enc.p.indentedIn = false
	enc.p.putNewline = false
	enc.p.closed = false
	enc.p.err = nil
	// Truncate the elements slice without releasing its backing array.
	enc.p.elements = enc.p.elements[:0]
	encoderPool.Put(enc)
""", """	enc.p.reset(io.Discard)
	encoderPool.Put(enc)
"""))
r("encode-one", (M, """	err := enc.p.marshalValue(reflect.ValueOf(v), nil, nil)
	if err != nil {
		return err
	}
	return enc.p.w.Flush()
""", """	if err := enc.p.marshalValue(reflect.ValueOf(v), nil, nil); err != nil {
		return err
	}
	return enc.Flush()
"""))

# typeinfo.go
r("ti-impl", (T, """	pt := reflect.PointerTo(t)
	v := typeImpl{
		marshaler:         t.Implements(marshalerType),
		addrMarshaler:     pt.Implements(marshalerType),
		marshalerAttr:     t.Implements(marshalerAttrType),
		addrMarshalerAttr: pt.Implements(marshalerAttrType),
		textMarshaler:     t.Implements(textMarshalerType),
		addrTextMarshaler: pt.Implements(textMarshalerType),
	}
	typeImplMap.Store(t, v)
""", """	var v typeImpl
	v.marshaler = t.Implements(marshalerType)
	v.marshalerAttr = t.Implements(marshalerAttrType)
	v.textMarshaler = t.Implements(textMarshalerType)
	pt := reflect.PointerTo(t)
	v.addrMarshaler = pt.Implements(marshalerType)
	v.addrMarshalerAttr = pt.Implements(marshalerAttrType)
	v.addrTextMarshaler = pt.Implements(textMarshalerType)
	typeImplMap.Store(t, v)
"""))
addt("ti-impl-func", """
// implements lists what t and its pointer type implement.
func implements(t, pt, iface reflect.Type) (val, addr bool) {
	return t.Implements(iface), pt.Implements(iface)
}
""", (T, """	v := typeImpl{
		marshaler:         t.Implements(marshalerType),
		addrMarshaler:     pt.Implements(marshalerType),
		marshalerAttr:     t.Implements(marshalerAttrType),
		addrMarshalerAttr: pt.Implements(marshalerAttrType),
		textMarshaler:     t.Implements(textMarshalerType),
		addrTextMarshaler: pt.Implements(textMarshalerType),
	}
""", """	var v typeImpl
	v.marshaler, v.addrMarshaler = implements(t, pt, marshalerType)
	v.marshalerAttr, v.addrMarshalerAttr = implements(t, pt, marshalerAttrType)
	v.textMarshaler, v.addrTextMarshaler = implements(t, pt, textMarshalerType)
"""))
addt("ti-index", """
// index counts the attributes and builds a map for O(1) lookup during unmarshal.
func (tinfo *typeInfo) index() {
	tinfo.attrs = make(map[attrKey]*fieldInfo, len(tinfo.fields))
	for i := range tinfo.fields {
		fi := &tinfo.fields[i]
		mode := fi.flags & fMode
		if mode == fAttr {
			tinfo.nAttrs++
			tinfo.attrs[attrKey{fi.xmlns, fi.name}] = fi
		} else if mode == fAny|fAttr && tinfo.anyAttr == nil {
			tinfo.anyAttr = fi
		}
	}
}
""", (T, """	tinfo.attrs = make(map[attrKey]*fieldInfo, len(tinfo.fields))
	for i := range tinfo.fields {
		fi := &tinfo.fields[i]
		switch fi.flags & fMode {
		case fAttr:
			tinfo.nAttrs++
			// Register under (fi.xmlns, fi.name). Lookup in read.go will
			// try (a.Name.Space, fi.name) first, then ("", fi.name) for
			// fields registered with an empty namespace.
			tinfo.attrs[attrKey{fi.xmlns, fi.name}] = fi
		case fAny | fAttr:
			if tinfo.anyAttr == nil {
				tinfo.anyAttr = fi
			}
		}
	}
""", """	tinfo.index()
"""))
addt("ti-skip", """
// skipped: the field has no part in the XML.
func skipped(f *reflect.StructField) bool {
	return f.Tag.Get("xml") == "-" || !f.Anonymous && !f.IsExported()
}
""", (T, """			if (!f.IsExported() && !f.Anonymous) || f.Tag.Get("xml") == "-" {
				continue // Private field
			}
""", """			if skipped(&f) {
				continue // Private field
			}
"""))
addt("ti-embed", """
// embed takes over the fields of embedded field i of type t.
func (tinfo *typeInfo) embed(typ, t reflect.Type, i int) error {
	inner, err := getTypeInfo(t)
	if err != nil {
		return err
	}
	if tinfo.xmlname == nil && inner.xmlname != nil && inner.xmlname.name != "" {
		// to leave xmlname to nil and to avoid assigning unexported xmlname field
		tinfo.xmlname = inner.xmlname
	}
	for _, finfo := range inner.fields {
		finfo.idx = append([]int{i}, finfo.idx...)
		if err := addFieldInfo(typ, tinfo, &finfo); err != nil {
			return err // Any detected conflict returns an error
		}
	}
	return nil
}
""", (T, """					inner, err := getTypeInfo(t)
					if err != nil {
						return nil, err
					}
					if tinfo.xmlname == nil && inner.xmlname != nil && inner.xmlname.name != "" {
						// to leave xmlname to nil and to avoid assigning unexported xmlname field
						tinfo.xmlname = inner.xmlname
					}
					for _, finfo := range inner.fields {
						finfo.idx = append([]int{i}, finfo.idx...)
						if err := addFieldInfo(typ, tinfo, &finfo); err != nil {
							return nil, err // Any detected conflict returns an error
						}
					}
					continue
""", """					if err := tinfo.embed(typ, t, i); err != nil {
						return nil, err
					}
					continue
"""))
r("ti-flags-map", (T, """			switch flag {
			case "attr":
				finfo.flags |= fAttr
			case "cdata":
				finfo.flags |= fCDATA
			case "chardata":
				finfo.flags |= fCharData
			case "innerxml":
				finfo.flags |= fInnerXML
			case "comment":
				finfo.flags |= fComment
			case "any":
				finfo.flags |= fAny
			case "omitempty":
				finfo.flags |= fOmitEmpty
			}
""", """			finfo.flags |= flagsByName[flag]
"""), (T, """// structFieldInfo builds""", """var flagsByName = map[string]fieldFlags{
	"attr":      fAttr,
	"cdata":     fCDATA,
	"chardata":  fCharData,
	"innerxml":  fInnerXML,
	"comment":   fComment,
	"any":       fAny,
	"omitempty": fOmitEmpty,
}

// structFieldInfo builds"""))
addt("ti-flags-func", """
// flagOf is the flag of that name, 0 if there is none.
func flagOf(name string) fieldFlags {
	switch name {
	case "attr":
		return fAttr
	case "cdata":
		return fCDATA
	case "chardata":
		return fCharData
	case "innerxml":
		return fInnerXML
	case "comment":
		return fComment
	case "any":
		return fAny
	case "omitempty":
		return fOmitEmpty
	}
	return 0
}
""", (T, """			switch flag {
			case "attr":
				finfo.flags |= fAttr
			case "cdata":
				finfo.flags |= fCDATA
			case "chardata":
				finfo.flags |= fCharData
			case "innerxml":
				finfo.flags |= fInnerXML
			case "comment":
				finfo.flags |= fComment
			case "any":
				finfo.flags |= fAny
			case "omitempty":
				finfo.flags |= fOmitEmpty
			}
""", """			finfo.flags |= flagOf(flag)
"""))
r("ti-valid", (T, """		valid := true
		switch mode := finfo.flags & fMode; mode {
		case 0:
			finfo.flags |= fElement
		case fAttr, fCDATA, fCharData, fInnerXML, fComment, fAny, fAny | fAttr:
			if f.Name == xmlName || tag != "" && mode != fAttr {
				valid = false
			}
		default:
			// This will also catch multiple modes in a single field.
			valid = false
		}
""", """		var valid bool
		switch mode := finfo.flags & fMode; mode {
		case 0:
			valid = true
			finfo.flags |= fElement
		case fAttr, fCDATA, fCharData, fInnerXML, fComment, fAny, fAny | fAttr:
			valid = f.Name != xmlName && (tag == "" || mode == fAttr)
		}
		// This will also catch multiple modes in a single field.
"""))
r("ti-parents", (T, """	parents := strings.Split(tag, ">")
	if parents[0] == "" {
		parents[0] = f.Name
	}
	if parents[len(parents)-1] == "" {
		return nil, fmt.Errorf("xml: trailing '>' in field %s of type %s", f.Name, typ)
	}
	finfo.prefix, finfo.name = splitPrefixed(parents[len(parents)-1])
""", """	parents := strings.Split(tag, ">")
	last := len(parents) - 1
	if parents[0] == "" {
		parents[0] = f.Name
	}
	if parents[last] == "" {
		return nil, fmt.Errorf("xml: trailing '>' in field %s of type %s", f.Name, typ)
	}
	finfo.prefix, finfo.name = splitPrefixed(parents[last])
"""), (T, """		finfo.parents = parents[:len(parents)-1]
""", """		finfo.parents = parents[:last]
"""))
r("ti-lookup", (T, """	for i, n := 0, typ.NumField(); i < n; i++ {
		f := typ.Field(i)
		if f.Name != xmlName {
			continue
		}
		finfo, err := structFieldInfo(typ, &f) // Recursive call
		if err == nil && finfo.name != "" {
			return finfo
		}
		// Also consider errors as a non-existent field tag
		// and let getTypeInfo itself report the error.
		break
	}
	return nil
""", """	for i := range typ.NumField() {
		f := typ.Field(i)
		if f.Name == xmlName {
			finfo, err := structFieldInfo(typ, &f) // Recursive call
			if err != nil || finfo.name == "" {
				// Also consider errors as a non-existent field tag
				// and let getTypeInfo itself report the error.
				return nil
			}
			return finfo
		}
	}
	return nil
"""))
addt("ti-conflict", """
// conflicts: one of the paths is a prefix of the other, or both are the same.
func (newf *fieldInfo) conflicts(oldf *fieldInfo) bool {
	if oldf.flags&fMode != newf.flags&fMode {
		return false
	}
	if oldf.xmlns != "" && newf.xmlns != "" && oldf.xmlns != newf.xmlns {
		return false
	}
	minl := min(len(newf.parents), len(oldf.parents))
	for p := range minl {
		if oldf.parents[p] != newf.parents[p] {
			return false
		}
	}
	switch {
	case len(oldf.parents) > len(newf.parents):
		return oldf.parents[len(newf.parents)] == newf.name
	case len(oldf.parents) < len(newf.parents):
		return newf.parents[len(oldf.parents)] == oldf.name
	}
	return newf.name == oldf.name && newf.xmlns == oldf.xmlns
}
""", (T, """Loop:
	// First, figure all conflicts. Most working code will have none.
	for i := range tinfo.fields {
		oldf := &tinfo.fields[i]
		if oldf.flags&fMode != newf.flags&fMode {
			continue
		}
		if oldf.xmlns != "" && newf.xmlns != "" && oldf.xmlns != newf.xmlns {
			continue
		}
		minl := min(len(newf.parents), len(oldf.parents))
		for p := range minl {
			if oldf.parents[p] != newf.parents[p] {
				continue Loop
			}
		}
		if len(oldf.parents) > len(newf.parents) {
			if oldf.parents[len(newf.parents)] == newf.name {
				conflicts = append(conflicts, i)
			}
		} else if len(oldf.parents) < len(newf.parents) {
			if newf.parents[len(oldf.parents)] == oldf.name {
				conflicts = append(conflicts, i)
			}
		} else {
			if newf.name == oldf.name && newf.xmlns == oldf.xmlns {
				conflicts = append(conflicts, i)
			}
		}
	}
""", """	// First, figure all conflicts. Most working code will have none.
	for i := range tinfo.fields {
		if newf.conflicts(&tinfo.fields[i]) {
			conflicts = append(conflicts, i)
		}
	}
"""))
r("ti-drop", (T, """	for c := len(conflicts) - 1; c >= 0; c-- {
		i := conflicts[c]
		copy(tinfo.fields[i:], tinfo.fields[i+1:])
		tinfo.fields = tinfo.fields[:len(tinfo.fields)-1]
	}
	tinfo.fields = append(tinfo.fields, *newf)
""", """	fields := tinfo.fields
	for c := len(conflicts) - 1; c >= 0; c-- {
		i := conflicts[c]
		copy(fields[i:], fields[i+1:])
		fields = fields[:len(fields)-1]
	}
	tinfo.fields = append(fields, *newf)
"""))
r("ti-value", (T, """		if i > 0 {
			t := v.Type()
			if t.Kind() == reflect.Pointer && t.Elem().Kind() == reflect.Struct {
				if v.IsNil() {
					if !shouldInitNilPointers {
						return reflect.Value{}
					}
					v.Set(reflect.New(v.Type().Elem()))
				}
				v = v.Elem()
			}
		}
		v = v.Field(x)
""", """		if t := v.Type(); i > 0 && t.Kind() == reflect.Pointer && t.Elem().Kind() == reflect.Struct {
			if v.IsNil() {
				if !shouldInitNilPointers {
					return reflect.Value{}
				}
				v.Set(reflect.New(t.Elem()))
			}
			v = v.Elem()
		}
		v = v.Field(x)
"""))
r("ti-load", (T, """	if ti, ok := tinfoMap.Load(typ); ok {
		return ti.(*typeInfo), nil
	}

	tinfo := &typeInfo{}
""", """	if cached, ok := tinfoMap.Load(typ); ok {
		return cached.(*typeInfo), nil
	}

	tinfo := new(typeInfo)
"""), (T, """	ti, _ := tinfoMap.LoadOrStore(typ, tinfo) // Returned bool is always false
	return ti.(*typeInfo), nil
""", """	if ti, loaded := tinfoMap.LoadOrStore(typ, tinfo); loaded {
		return ti.(*typeInfo), nil
	}
	return tinfo, nil
"""))

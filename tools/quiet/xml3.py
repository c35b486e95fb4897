M = "xml/marshal.go"
T = "xml/typeinfo.go"
R = {}
def e(name, *pairs):
    R["m-" + name] = [(M, a, b) for a, b in pairs]
def t(name, *pairs):
    R["m-" + name] = [(T, a, b) for a, b in pairs]

e("marshal-shared", ('''	var b bytes.Buffer
	enc := NewEncoder(&b)
	enc.Indent(prefix, indent)
	if err := enc.Encode(v); err != nil {
		return nil, err
	}
	if err := enc.Close(); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}
''', '''	return marshalTo(v, prefix, indent)
}

func marshalTo(v any, prefix, indent string) ([]byte, error) {
	buf := new(bytes.Buffer)
	enc := NewEncoder(buf)
	enc.Indent(prefix, indent)
	err := enc.Encode(v)
	if err == nil {
		err = enc.Close()
	}
	if err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}
'''))
e("acquire-order", ('''	enc.p.w.Reset(w)
	enc.p.closed = false
	enc.p.err = nil
	return enc
''', '''	p := &enc.p
	p.err, p.closed = nil, false
	p.w.Reset(w)
	return enc
'''))
e("release-helper", ('''	enc.p.w.Reset(io.Discard)
	// Clear all mutable printer state.
	enc.p.seq = 0
	enc.p.indent = ""
	enc.p.prefix = ""
	enc.p.depth = 0
	enc.p.indentedIn = false
	enc.p.putNewline = false
	enc.p.closed = false
	enc.p.err = nil
	// Truncate the elements slice without releasing its backing array.
	enc.p.elements = enc.p.elements[:0]
	encoderPool.Put(enc)
}
''', '''	enc.p.reset()
	encoderPool.Put(enc)
}

func (p *printer) reset() {
	p.elements = p.elements[:0]
	p.indent, p.prefix = "", ""
	p.seq, p.depth = 0, 0
	p.indentedIn, p.putNewline, p.closed = false, false, false
	p.err = nil
	p.w.Reset(io.Discard)
}
'''))
e("release-struct", ('''	enc.p.w.Reset(io.Discard)
	// Clear all mutable printer state.
	enc.p.seq = 0
	enc.p.indent = ""
	enc.p.prefix = ""
	enc.p.depth = 0
	enc.p.indentedIn = false
	enc.p.putNewline = false
	enc.p.closed = false
	enc.p.err = nil
	// Truncate the elements slice without releasing its backing array.
	enc.p.elements = enc.p.elements[:0]
	encoderPool.Put(enc)
''', '''	w := enc.p.w
	w.Reset(io.Discard)
	enc.p = printer{w: w, encoder: enc, elements: enc.p.elements[:0]}
	encoderPool.Put(enc)
'''))
e("encode-delegate", ('''	err := enc.p.marshalValue(reflect.ValueOf(v), nil, nil)
	if err != nil {
		return err
	}
	return enc.p.w.Flush()
''', '''	return enc.encode(v, nil)
'''), ('''	err := enc.p.marshalValue(reflect.ValueOf(v), nil, &start)
	if err != nil {
		return err
	}
	return enc.p.w.Flush()
}
''', '''	return enc.encode(v, &start)
}

func (enc *Encoder) encode(v any, start *StartElement) error {
	if err := enc.p.marshalValue(reflect.ValueOf(v), nil, start); err != nil {
		return err
	}
	return enc.p.w.Flush()
}
'''))
e("token-direct", ('''	case StartElement:
		if err := p.writeStart(&t); err != nil {
			return err
		}
	case EndElement:
		if err := p.writeEnd(t.Name); err != nil {
			return err
		}
''', '''	case StartElement:
		err := p.writeStart(&t)
		if err != nil {
			return err
		}
	case EndElement:
		err := p.writeEnd(t.Name)
		if err != nil {
			return err
		}
'''), ('''		p.WriteString("<!--")
		p.Write(t)
		p.WriteString("-->")
		return p.cachedWriteError()
	case ProcInst:''', '''		p.WriteString("<!--")
		p.Write(t)
		p.WriteString("-->")
	case ProcInst:'''))
e("token-procinst-method", ('''		if t.Target == "xml" && p.w.Buffered() != 0 {
			return fmt.Errorf("xml: EncodeToken of ProcInst xml target only valid for xml declaration, first token encoded")
		}
		if !isNameString(t.Target) {
			return fmt.Errorf("xml: EncodeToken of ProcInst with invalid Target")
		}
		if bytes.Contains(t.Inst, endProcInst) {
			return fmt.Errorf("xml: EncodeToken of ProcInst containing ?> marker")
		}
		p.WriteString("<?")
		p.WriteString(t.Target)
		if len(t.Inst) > 0 {
			p.WriteByte(' ')
			p.Write(t.Inst)
		}
		p.WriteString("?>")
''', '''		if err := p.writeProcInst(t); err != nil {
			return err
		}
'''), ('''func isValidDirective(''', '''func (p *printer) writeProcInst(pi ProcInst) error {
	if pi.Target == "xml" && p.w.Buffered() != 0 {
		return fmt.Errorf("xml: EncodeToken of ProcInst xml target only valid for xml declaration, first token encoded")
	}
	if !isNameString(pi.Target) {
		return fmt.Errorf("xml: EncodeToken of ProcInst with invalid Target")
	}
	if bytes.Contains(pi.Inst, endProcInst) {
		return fmt.Errorf("xml: EncodeToken of ProcInst containing ?> marker")
	}
	p.WriteString("<?")
	p.WriteString(pi.Target)
	if len(pi.Inst) != 0 {
		p.WriteByte(' ')
		p.Write(pi.Inst)
	}
	p.WriteString("?>")
	return nil
}

func isValidDirective('''))
e("token-errors-new", ('''return fmt.Errorf("xml: EncodeToken of invalid token type")''', '''return errors.New("xml: EncodeToken of invalid token type")'''),
  ('''return fmt.Errorf("xml: EncodeToken of Comment containing --> marker")''', '''return errors.New("xml: EncodeToken of Comment containing --> marker")'''))
e("directive-hassuffix", ('''				if n := 1 + i - len(endComment); n >= 0 && bytes.Equal(dir[n:i+1], endComment) {
					incomment = false
				}
''', '''				if bytes.HasSuffix(dir[:i+1], endComment) {
					incomment = false
				}
'''))
e("directive-ifs", ('''		switch {
		case incomment:
			if c == '>' {
				if n := 1 + i - len(endComment); n >= 0 && bytes.Equal(dir[n:i+1], endComment) {
					incomment = false
				}
			}
			// Just ignore anything in comment
		case inquote != 0:
			if c == inquote {
				inquote = 0
			}
			// Just ignore anything within quotes
		case c == '\\'' || c == '"':
			inquote = c
		case c == '<':
''', '''		if incomment {
			if c != '>' {
				continue
			}
			if n := i + 1 - len(endComment); n >= 0 && bytes.Equal(dir[n:i+1], endComment) {
				incomment = false
			}
			continue
		}
		if inquote != 0 {
			if inquote == c {
				inquote = 0
			}
			continue
		}
		switch c {
		case '\\'', '"':
			inquote = c
		case '<':
'''), ('''		case c == '>':
			if depth == 0 {''', '''		case '>':
			if depth == 0 {'''))
e("directive-index", ('''	for i, c := range dir {
		switch {
		case incomment:''', '''	for i := 0; i < len(dir); i++ {
		c := dir[i]
		switch {
		case incomment:'''))
e("newelement-lit", ('''	var e element
	e.xmlns = name.Space
	e.prefix, e.name = splitPrefixed(name.Local)
	return e
''', '''	prefix, local := splitPrefixed(name.Local)
	return element{xmlns: name.Space, prefix: prefix, name: local}
'''))
e("split-indexbyte", ('''	i := strings.Index(prefixed, ":")
	if i < 1 || i > len(prefixed)-2 {
		return "", prefixed
	}
	return prefixed[:i], prefixed[i+1:]
''', '''	i := strings.IndexByte(prefixed, ':')
	if i <= 0 || i+1 >= len(prefixed) {
		return "", prefixed
	}
	return prefixed[:i], prefixed[i+1:]
'''))
e("split-cut", ('''	i := strings.Index(prefixed, ":")
	if i < 1 || i > len(prefixed)-2 {
		return "", prefixed
	}
	return prefixed[:i], prefixed[i+1:]
''', '''	if before, after, ok := strings.Cut(prefixed, ":"); ok && before != "" && after != "" {
		return before, after
	}
	return "", prefixed
'''))
e("join-invert", ('''	if prefix == "" {
		return name
	}
	return prefix + ":" + name
''', '''	if len(prefix) > 0 {
		return prefix + ":" + name
	}
	return name
'''))
e("getprefix-if", ('''	switch uri {
	case xmlURL:
		// The "http://www.w3.org/XML/1998/namespace" namespace is predefined as "xml"
		// and must be referred to that way.
		return xmlPrefix
	case xmlnsURL:
		// (The "http://www.w3.org/2000/xmlns/" namespace is also predefined as "xmlns",
		// but users should not be trying to use that one directly - that's our job.)
		return xmlnsPrefix
	}
''', '''	if uri == xmlURL {
		return xmlPrefix
	}
	if uri == xmlnsURL {
		return xmlnsPrefix
	}
'''))
e("getprefix-inner", ('''			for i++; i < len(p.elements); i++ {
				if p.elements[i].prefixToNS[prefix] != "" {
					return ""
				}
			}
			return prefix
''', '''			for j := i + 1; j < len(p.elements); j++ {
				if p.elements[j].prefixToNS[prefix] != "" {
					return ""
				}
			}
			return prefix
'''))
e("getprefix-rangeinner", ('''			for i++; i < len(p.elements); i++ {
				if p.elements[i].prefixToNS[prefix] != "" {
					return ""
				}
			}
			return prefix
''', '''			for _, inner := range p.elements[i+1:] {
				if inner.prefixToNS[prefix] != "" {
					return ""
				}
			}
			return prefix
'''))
e("getprefix-continue", ('''		prefix := p.elements[i].nsToPrefix[uri]
		if prefix != "" {
			// Look for prefix collision deeper in the tree
			for i++; i < len(p.elements); i++ {
				if p.elements[i].prefixToNS[prefix] != "" {
					return ""
				}
			}
			return prefix
		}
	}
''', '''		prefix := p.elements[i].nsToPrefix[uri]
		if prefix == "" {
			continue
		}
		// Look for prefix collision deeper in the tree
		for i++; i < len(p.elements); i++ {
			if p.elements[i].prefixToNS[prefix] != "" {
				return ""
			}
		}
		return prefix
	}
'''))
e("createprefix-pick", ('''	if i := strings.LastIndex(prefix, "/"); i >= 0 {
		prefix = prefix[i+1:]
	}
	if prefix == "" || !isName([]byte(prefix)) || strings.Contains(prefix, ":") {
		prefix = "_"
	}
''', '''	if i := strings.LastIndexByte(prefix, '/'); i != -1 {
		prefix = prefix[i+1:]
	}
	if prefix == "" || strings.Contains(prefix, ":") || !isName([]byte(prefix)) {
		prefix = "_"
	}
'''))
e("createprefix-loop", ('''		for p.seq++; ; p.seq++ {
			if id := prefix + "_" + strconv.Itoa(p.seq); e.prefixToNS[id] == "" {
				prefix = id
				break
			}
		}
''', '''		for {
			p.seq++
			id := prefix + "_" + strconv.Itoa(p.seq)
			if e.prefixToNS[id] == "" {
				prefix = id
				break
			}
		}
'''))
e("createprefix-helper", ('''	// Pick a name. Try to use the final element of the path but fall back to _.
	prefix := preferred
	if prefix == "" || e.prefixToNS[prefix] != "" {
		prefix = strings.TrimRight(uri, "/")
	}
	if i := strings.LastIndex(prefix, "/"); i >= 0 {
		prefix = prefix[i+1:]
	}
	if prefix == "" || !isName([]byte(prefix)) || strings.Contains(prefix, ":") {
		prefix = "_"
	}
	// xmlanything is reserved and any variant of it regardless of
	// case should be matched, so:
	//    (('X'|'x') ('M'|'m') ('L'|'l'))
	// See Section 2.3 of https://www.w3.org/TR/REC-xml/
	if len(prefix) >= 3 && strings.EqualFold(prefix[:3], "xml") {
		prefix = "_" + prefix
	}
''', '''	prefix := preferred
	if prefix == "" || e.prefixToNS[prefix] != "" {
		prefix = strings.TrimRight(uri, "/")
	}
	prefix = cleanPrefix(prefix)
'''), ('''func (p *printer) writePrefixAttr(''', '''// cleanPrefix makes a usable prefix of the last path element.
func cleanPrefix(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	if s == "" || !isName([]byte(s)) || strings.Contains(s, ":") {
		return "_"
	}
	if len(s) >= 3 && strings.EqualFold(s[:3], "xml") {
		return "_" + s
	}
	return s
}

func (p *printer) writePrefixAttr('''))
e("writeprefix-one", ('''	p.WriteString(`xmlns:`)
	p.WriteString(prefix)
	p.WriteString(`="`)
	p.EscapeString(uri)
	p.WriteByte('"')
}
''', '''	const open = `="`
	p.WriteString(xmlnsPrefix + ":")
	p.WriteString(prefix)
	p.WriteString(open)
	p.EscapeString(uri)
	p.WriteByte('"')
}
'''))
e("value-kindvars", ('''	for val.Kind() == reflect.Interface || val.Kind() == reflect.Pointer {
		if val.IsNil() {
			return nil
		}
		val = val.Elem()
	}

	kind := val.Kind()
''', '''	for k := val.Kind(); k == reflect.Interface || k == reflect.Pointer; k = val.Kind() {
		if val.IsNil() {
			return nil
		}
		val = val.Elem()
	}

	kind := val.Kind()
'''))
e("value-indirect", ('''	for val.Kind() == reflect.Interface || val.Kind() == reflect.Pointer {
		if val.IsNil() {
			return nil
		}
		val = val.Elem()
	}

	kind := val.Kind()
	typ''', '''	val = indirect(val)
	kind := val.Kind()
	if (kind == reflect.Interface || kind == reflect.Pointer) && val.IsNil() {
		return nil
	}
	typ'''))
e("value-slice-helper", ('''	if (kind == reflect.Slice || kind == reflect.Array) && typ.Elem().Kind() != reflect.Uint8 {
		for i, n := 0, val.Len(); i < n; i++ {
			if err := p.marshalValue(val.Index(i), finfo, startTemplate); err != nil {
				return err
			}
		}
		return nil
	}
''', '''	if (kind == reflect.Slice || kind == reflect.Array) && typ.Elem().Kind() != reflect.Uint8 {
		return p.marshalElems(val, finfo, startTemplate)
	}
'''), ('''func (p *printer) marshalAttr(''', '''func (p *printer) marshalElems(val reflect.Value, finfo *fieldInfo, startTemplate *StartElement) error {
	for i := range val.Len() {
		if err := p.marshalValue(val.Index(i), finfo, startTemplate); err != nil {
			return err
		}
	}
	return nil
}

func (p *printer) marshalAttr('''))
e("value-start-helper", ('''	var start StartElement

	if startTemplate != nil {
		start.Name = startTemplate.Name
		start.Attr = append(start.Attr, startTemplate.Attr...)
	} else if tinfo.xmlname != nil {
		xmlname := tinfo.xmlname
		if xmlname.name != "" {
			start.Name.Space, start.Name.Local = xmlname.xmlns, joinPrefixed(xmlname.prefix, xmlname.name)
		} else {
			fv := xmlname.value(val, dontInitNilPointers)
			if v, ok := fv.Interface().(Name); ok && v.Local != "" {
				start.Name = v
			}
		}
	} else {
		// No enforced namespace, i.e. the outer tag namespace remains valid
	}
''', '''	var start StartElement

	switch {
	case startTemplate != nil:
		start.Name = startTemplate.Name
		start.Attr = append(start.Attr, startTemplate.Attr...)
	case tinfo.xmlname != nil && tinfo.xmlname.name != "":
		start.Name = Name{Space: tinfo.xmlname.xmlns, Local: joinPrefixed(tinfo.xmlname.prefix, tinfo.xmlname.name)}
	case tinfo.xmlname != nil:
		fv := tinfo.xmlname.value(val, dontInitNilPointers)
		if v, ok := fv.Interface().(Name); ok && v.Local != "" {
			start.Name = v
		}
	}
'''))
e("value-name-cut", ('''		name := typ.Name()
		if i := strings.IndexByte(name, '['); i >= 0 {
			// Truncate generic instantiation name. See issue 48318.
			name = name[:i]
		}
''', '''		name, _, _ := strings.Cut(typ.Name(), "[")
'''))
e("value-attrs-method", ('''	for i := range tinfo.fields {
		finfo := &tinfo.fields[i]
		if finfo.flags&fAttr == 0 {
			continue
		}

		fv := finfo.value(val, dontInitNilPointers)

		if !fv.IsValid() || finfo.flags&fOmitEmpty != 0 && isEmptyValue(fv) {
			continue
		}

		if fv.Kind() == reflect.Interface && fv.IsNil() {
			continue
		}

		name := Name{Space: finfo.xmlns, Local: joinPrefixed(finfo.prefix, finfo.name)}
		if err := p.marshalAttr(&start, name, fv); err != nil {
			return err
		}
	}
''', '''	if err := p.marshalAttrs(tinfo, val, &start); err != nil {
		return err
	}
'''), ('''func (p *printer) marshalAttr(''', '''func (p *printer) marshalAttrs(tinfo *typeInfo, val reflect.Value, start *StartElement) error {
	for i := range tinfo.fields {
		finfo := &tinfo.fields[i]
		if finfo.flags&fAttr == 0 {
			continue
		}
		fv := finfo.value(val, dontInitNilPointers)
		if !fv.IsValid() {
			continue
		}
		if finfo.flags&fOmitEmpty != 0 && isEmptyValue(fv) {
			continue
		}
		if fv.Kind() == reflect.Interface && fv.IsNil() {
			continue
		}
		name := Name{Space: finfo.xmlns, Local: joinPrefixed(finfo.prefix, finfo.name)}
		if err := p.marshalAttr(start, name, fv); err != nil {
			return err
		}
	}
	return nil
}

func (p *printer) marshalAttr('''))
e("value-content", ('''	if val.Kind() == reflect.Struct {
		err = p.marshalStruct(tinfo, val)
	} else {
		s, b, err1 := p.marshalSimple(typ, val)
		if err1 != nil {
			err = err1
		} else if b != nil {
			EscapeText(p, b)
		} else {
			p.EscapeString(s)
		}
	}
	if err != nil {
		return err
	}
''', '''	if kind == reflect.Struct {
		if err := p.marshalStruct(tinfo, val); err != nil {
			return err
		}
	} else {
		s, b, err := p.marshalSimple(typ, val)
		if err != nil {
			return err
		}
		if b != nil {
			EscapeText(p, b)
		} else {
			p.EscapeString(s)
		}
	}
'''))
e("value-err-shadow", ('''	if err := p.writeEnd(start.Name); err != nil {
		return err
	}

	return p.cachedWriteError()
}

// marshalAttr marshals an attribute''', '''	if err = p.writeEnd(start.Name); err != nil {
		return err
	}

	return p.cachedWriteError()
}

// marshalAttr marshals an attribute'''))
e("attr-append-helper", ('''		if attr.Name.Local != "" {
			start.Attr = append(start.Attr, attr)
		}
		return nil
	}

	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && tai.addrMarshalerAttr {
			attr, err := pv.Interface().(MarshalerAttr).MarshalXMLAttr(name)
			if err != nil {
				return err
			}
			if attr.Name.Local != "" {
				start.Attr = append(start.Attr, attr)
			}
			return nil
		}
	}
''', '''		start.addNamed(attr)
		return nil
	}

	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && tai.addrMarshalerAttr {
			attr, err := pv.Interface().(MarshalerAttr).MarshalXMLAttr(name)
			if err != nil {
				return err
			}
			start.addNamed(attr)
			return nil
		}
	}
'''), ('''func defaultStart(''', '''// addNamed adds a unless it has no name.
func (e *StartElement) addNamed(a Attr) {
	if a.Name.Local == "" {
		return
	}
	e.Attr = append(e.Attr, a)
}

func defaultStart('''))
e("attr-hook-helper", ('''		attr, err := val.Interface().(MarshalerAttr).MarshalXMLAttr(name)
		if err != nil {
			return err
		}
		if attr.Name.Local != "" {
			start.Attr = append(start.Attr, attr)
		}
		return nil
	}

	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && tai.addrMarshalerAttr {
			attr, err := pv.Interface().(MarshalerAttr).MarshalXMLAttr(name)
			if err != nil {
				return err
			}
			if attr.Name.Local != "" {
				start.Attr = append(start.Attr, attr)
			}
			return nil
		}
	}
''', '''		return addHookAttr(start, name, val.Interface().(MarshalerAttr))
	}

	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && tai.addrMarshalerAttr {
			return addHookAttr(start, name, pv.Interface().(MarshalerAttr))
		}
	}
'''), ('''func defaultStart(''', '''func addHookAttr(start *StartElement, name Name, m MarshalerAttr) error {
	attr, err := m.MarshalXMLAttr(name)
	if err == nil && attr.Name.Local != "" {
		start.Attr = append(start.Attr, attr)
	}
	return err
}

func defaultStart('''))
e("attr-slice-while", ('''		for i := range val.Len() {
			if err := p.marshalAttr(start, name, val.Index(i)); err != nil {
				return err
			}
		}
		return nil
	}

	if val.Type() == attrType {''', '''		n := val.Len()
		for i := 0; i < n; i++ {
			if err := p.marshalAttr(start, name, val.Index(i)); err != nil {
				return err
			}
		}
		return nil
	}

	if val.Type() == attrType {'''))
e("attr-kind-if", ('''	switch val.Kind() {
	case reflect.Pointer, reflect.Interface:
		if val.IsNil() {
			return nil
		}
		val = val.Elem()
	}
''', '''	if k := val.Kind(); k == reflect.Pointer || k == reflect.Interface {
		if val.IsNil() {
			return nil
		}
		val = val.Elem()
	}
'''))
e("attr-tail", ('''	if b != nil {
		s = string(b)
	}
	start.Attr = append(start.Attr, Attr{name, s})
	return nil
''', '''	a := Attr{Name: name, Value: s}
	if b != nil {
		a.Value = string(b)
	}
	start.Attr = append(start.Attr, a)
	return nil
'''))
e("default-switch", ('''	if startTemplate != nil {
		start.Name = startTemplate.Name
		start.Attr = append(start.Attr, startTemplate.Attr...)
	} else if finfo != nil && finfo.name != "" {
		start.Name.Local = joinPrefixed(finfo.prefix, finfo.name)
		start.Name.Space = finfo.xmlns
	} else if typ.Name() != "" {
		start.Name.Local = typ.Name()
	} else {
		// Must be a pointer to a named type,
		// since it has the Marshaler methods.
		start.Name.Local = typ.Elem().Name()
	}
	return start
''', '''	switch {
	case startTemplate != nil:
		start.Name = startTemplate.Name
		start.Attr = append(start.Attr, startTemplate.Attr...)
	case finfo != nil && finfo.name != "":
		start.Name = Name{finfo.xmlns, joinPrefixed(finfo.prefix, finfo.name)}
	default:
		if start.Name.Local = typ.Name(); start.Name.Local == "" {
			start.Name.Local = typ.Elem().Name()
		}
	}
	return start
'''))
e("default-early", ('''	if startTemplate != nil {
		start.Name = startTemplate.Name
		start.Attr = append(start.Attr, startTemplate.Attr...)
	} else if finfo != nil && finfo.name != "" {
		start.Name.Local = joinPrefixed(finfo.prefix, finfo.name)
		start.Name.Space = finfo.xmlns
	} else if''', '''	if startTemplate != nil {
		start.Name = startTemplate.Name
		start.Attr = append(start.Attr, startTemplate.Attr...)
		return start
	}
	if finfo != nil && finfo.name != "" {
		start.Name.Space = finfo.xmlns
		start.Name.Local = joinPrefixed(finfo.prefix, finfo.name)
		return start
	}
	if'''))
e("iface-mark", ('''	p.elements = append(p.elements, element{})
	n := len(p.elements)

	err := val.MarshalXML(p.encoder, start)
	if err != nil {
		return err
	}

	// Make sure MarshalXML closed all its tags. p.elements[n-1] is the mark.
	if len(p.elements) > n {
		return fmt.Errorf("xml: %s.MarshalXML wrote invalid XML: <%s> not closed", receiverType(val), p.elements[len(p.elements)-1].name)
	}
	p.elements = p.elements[:n-1]
	return nil
''', '''	n := len(p.elements)
	p.elements = append(p.elements, element{})

	if err := val.MarshalXML(p.encoder, start); err != nil {
		return err
	}

	if last := len(p.elements) - 1; last > n {
		return fmt.Errorf("xml: %s.MarshalXML wrote invalid XML: <%s> not closed", receiverType(val), p.elements[last].name)
	}
	p.elements = p.elements[:n]
	return nil
'''))
e("text-order", ('''	EscapeText(p, text)
	return p.writeEnd(start.Name)
}
''', '''	EscapeText(p, text)
	err = p.writeEnd(start.Name)
	return err
}
'''))
e("start-elem-local", ('''	p.elements = append(p.elements, newElement(start.Name))
	e := &p.elements[len(p.elements)-1]
''', '''	n := len(p.elements)
	p.elements = append(p.elements, newElement(start.Name))
	e := &p.elements[n]
'''))
e("start-space-helper", ('''		for _, attr := range start.Attr {
			if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {
				spaceDefined = true
				break
			}
		}
''', '''		spaceDefined = declaresDefault(start.Attr, e.xmlns)
'''), ('''func (p *printer) writeEnd(''', '''func declaresDefault(attrs []Attr, uri string) bool {
	for _, a := range attrs {
		if a.Name.Space == "" && a.Name.Local == xmlnsPrefix && a.Value == uri {
			return true
		}
	}
	return false
}

func (p *printer) writeEnd('''))
e("start-name-helper", ('''	p.writeIndent(1) // handling relative depth of a tag
	p.WriteByte('<')
	if e.prefix != "" {
		var prefixCreated bool
		if e.xmlns != "" && !spaceDefined {
			e.prefix, prefixCreated = p.createPrefix(e.xmlns, e.prefix)
		}
		p.WriteString(e.prefix)
		p.WriteByte(':')
		p.WriteString(e.name)
		if prefixCreated {
			p.WriteByte(' ')
			p.writePrefixAttr(e.prefix, e.xmlns)
		}
	} else if e.xmlns != "" {
		p.WriteString(e.name)
		if !spaceDefined {
			p.WriteString(` xmlns="`)
			p.EscapeString(e.xmlns)
			p.WriteByte('"')
		}
	} else {
		p.WriteString(e.name)
	}

	// Attributes
''', '''	p.writeIndent(1)
	p.WriteByte('<')
	p.writeStartName(e, spaceDefined)

	// Attributes
'''), ('''func (p *printer) writeEnd(''', '''func (p *printer) writeStartName(e *element, spaceDefined bool) {
	if e.prefix == "" {
		p.WriteString(e.name)
		if e.xmlns != "" && !spaceDefined {
			p.WriteString(` xmlns="`)
			p.EscapeString(e.xmlns)
			p.WriteByte('"')
		}
		return
	}
	created := false
	if e.xmlns != "" && !spaceDefined {
		e.prefix, created = p.createPrefix(e.xmlns, e.prefix)
	}
	p.WriteString(e.prefix)
	p.WriteByte(':')
	p.WriteString(e.name)
	if created {
		p.WriteByte(' ')
		p.writePrefixAttr(e.prefix, e.xmlns)
	}
}

func (p *printer) writeEnd('''))
e("start-attr-method", ('''	for _, attr := range start.Attr {
		if attr.Name.Local == "" {
			continue
		}
		prefix, local := splitPrefixed(attr.Name.Local)
		p.WriteByte(' ')
		if attr.Name.Space == xmlnsURL {
			p.createPrefix(attr.Value, local)
			p.WriteString(xmlnsPrefix)
			p.WriteByte(':')
		} else if attr.Name.Space != "" {
			var prefixCreated bool
			prefix, prefixCreated = p.createPrefix(attr.Name.Space, prefix)
			if prefixCreated {
				p.writePrefixAttr(prefix, attr.Name.Space)
				p.WriteByte(' ')
			}
			p.WriteString(prefix)
			p.WriteByte(':')
		}
		p.WriteString(local)
		p.WriteString(`="`)
		p.EscapeString(attr.Value)
		p.WriteByte('"')
	}
	p.WriteByte('>')
	return nil
}
''', '''	for _, attr := range start.Attr {
		if attr.Name.Local != "" {
			p.writeAttr(attr)
		}
	}
	p.WriteByte('>')
	return nil
}

func (p *printer) writeAttr(attr Attr) {
	prefix, local := splitPrefixed(attr.Name.Local)
	p.WriteByte(' ')
	switch attr.Name.Space {
	case "":
	case xmlnsURL:
		p.createPrefix(attr.Value, local)
		p.WriteString(xmlnsPrefix)
		p.WriteByte(':')
	default:
		prefix, created := p.createPrefix(attr.Name.Space, prefix)
		if created {
			p.writePrefixAttr(prefix, attr.Name.Space)
			p.WriteByte(' ')
		}
		p.WriteString(prefix)
		p.WriteByte(':')
	}
	p.WriteString(local)
	p.WriteString(`="`)
	p.EscapeString(attr.Value)
	p.WriteByte('"')
}
'''))
e("start-attr-index", ('''	// Attributes
	for _, attr := range start.Attr {
		if attr.Name.Local == "" {
			continue
		}
''', '''	// Attributes
	for i := range start.Attr {
		attr := start.Attr[i]
		if len(attr.Name.Local) == 0 {
			continue
		}
'''))
e("end-top", ('''	if len(p.elements) == 0 || p.elements[len(p.elements)-1].name == "" {
		return fmt.Errorf("xml: end tag </%s> without start tag", name.Local)
	}
	e := p.elements[len(p.elements)-1]
''', '''	top := len(p.elements) - 1
	if top < 0 || p.elements[top].name == "" {
		return fmt.Errorf("xml: end tag </%s> without start tag", name.Local)
	}
	e := p.elements[top]
'''))
e("end-check-helper", ('''	e := p.elements[len(p.elements)-1]
	prefix, local := splitPrefixed(name.Local)
	// Tag prefixes do not match
	if prefix != "" && e.prefix != "" && prefix != e.prefix {
		return fmt.Errorf("xml: end prefix </%s:%s> does not match start prefix <%s:%s>", prefix, local, e.prefix, e.name)
	}
	// Tag names do not match
	if local != e.name {
		return fmt.Errorf("xml: end tag </%s> does not match start tag <%s>", local, e.name)
	}
	// Namespaces do not match
	if name.Space != e.xmlns {
		return fmt.Errorf("xml: end namespace %q does not match start namespace %q", name.Space, e.xmlns)
	}
''', '''	e := p.elements[len(p.elements)-1]
	if err := e.matches(name); err != nil {
		return err
	}
'''), ('''func (p *printer) marshalSimple(''', '''func (e element) matches(name Name) error {
	prefix, local := splitPrefixed(name.Local)
	if prefix != "" && e.prefix != "" && prefix != e.prefix {
		return fmt.Errorf("xml: end prefix </%s:%s> does not match start prefix <%s:%s>", prefix, local, e.prefix, e.name)
	}
	if local != e.name {
		return fmt.Errorf("xml: end tag </%s> does not match start tag <%s>", local, e.name)
	}
	if name.Space != e.xmlns {
		return fmt.Errorf("xml: end namespace %q does not match start namespace %q", name.Space, e.xmlns)
	}
	return nil
}

func (p *printer) marshalSimple('''))
e("end-order", ('''	// Tag names do not match
	if local != e.name {
		return fmt.Errorf("xml: end tag </%s> does not match start tag <%s>", local, e.name)
	}
	// Namespaces do not match
	if name.Space != e.xmlns {
		return fmt.Errorf("xml: end namespace %q does not match start namespace %q", name.Space, e.xmlns)
	}
''', '''	switch {
	case local != e.name:
		return fmt.Errorf("xml: end tag </%s> does not match start tag <%s>", local, e.name)
	case name.Space != e.xmlns:
		return fmt.Errorf("xml: end namespace %q does not match start namespace %q", name.Space, e.xmlns)
	}
'''))
e("simple-array", ('''		var bytes []byte
		if val.CanAddr() {
			bytes = val.Bytes()
		} else {
			bytes = make([]byte, val.Len())
			reflect.Copy(reflect.ValueOf(bytes), val)
		}
		return "", bytes, nil
''', '''		if val.CanAddr() {
			return "", val.Bytes(), nil
		}
		buf := make([]byte, val.Len())
		reflect.Copy(reflect.ValueOf(buf), val)
		return "", buf, nil
'''))
e("simple-kind", ('''	switch val.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(val.Int(), 10), nil, nil
''', '''	kind := val.Kind()
	switch kind {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := val.Int()
		return strconv.FormatInt(n, 10), nil, nil
'''))
e("struct-text-helper", ('''			if vf.CanInterface() && vf.Type().Implements(textMarshalerType) {
				data, err := vf.Interface().(encoding.TextMarshaler).MarshalText()
				if err != nil {
					return err
				}
				if err := emit(p, data); err != nil {
					return err
				}
				continue
			}
			if vf.CanAddr() {
				pv := vf.Addr()
				if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
					data, err := pv.Interface().(encoding.TextMarshaler).MarshalText()
					if err != nil {
						return err
					}
					if err := emit(p, data); err != nil {
						return err
					}
					continue
				}
			}
''', '''			tm := asTextMarshaler(vf)
			if tm == nil && vf.CanAddr() {
				tm = asTextMarshaler(vf.Addr())
			}
			if tm != nil {
				data, err := tm.MarshalText()
				if err != nil {
					return err
				}
				if err := emit(p, data); err != nil {
					return err
				}
				continue
			}
'''), ('''func indirect(''', '''func asTextMarshaler(v reflect.Value) encoding.TextMarshaler {
	if v.CanInterface() && v.Type().Implements(textMarshalerType) {
		tm, _ := v.Interface().(encoding.TextMarshaler)
		return tm
	}
	return nil
}

func indirect('''))
e("struct-comment", ('''			dashDash := false
			dashLast := false
			switch k {
''', '''			var dashDash, dashLast bool
			switch k {
'''), ('''				dashLast = s[len(s)-1] == '-'
''', '''				dashLast = strings.HasSuffix(s, "-")
'''))
e("struct-push", ('''			if len(finfo.parents) > len(s.stack) {
				if vf.Kind() != reflect.Pointer && vf.Kind() != reflect.Interface || !vf.IsNil() {
					if err := s.push(finfo.parents[len(s.stack):]); err != nil {
						return err
					}
				}
			}
''', '''			if missing := finfo.parents[len(s.stack):]; len(missing) > 0 {
				k := vf.Kind()
				if (k != reflect.Pointer && k != reflect.Interface) || !vf.IsNil() {
					if err := s.push(missing); err != nil {
						return err
					}
				}
			}
'''))
e("struct-inner", ('''			vf = indirect(vf)
			iface := vf.Interface()
			switch raw := iface.(type) {
			case []byte:''', '''			vf = indirect(vf)
			switch raw := vf.Interface().(type) {
			case []byte:'''))
e("struct-emit-switch", ('''			emit := EscapeText
			if finfo.flags&fMode == fCDATA {
				emit = emitCDATA
			}
''', '''			var emit func(io.Writer, []byte) error
			switch finfo.flags & fMode {
			case fCDATA:
				emit = emitCDATA
			default:
				emit = EscapeText
			}
'''))
e("struct-emit-data", ('''			var scratch [64]byte
			vf = indirect(vf)
			switch vf.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				if err := emit(p, strconv.AppendInt(scratch[:0], vf.Int(), 10)); err != nil {
					return err
				}
''', '''			var scratch [64]byte
			vf = indirect(vf)
			switch vf.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				text := strconv.AppendInt(scratch[:0], vf.Int(), 10)
				err := emit(p, text)
				if err != nil {
					return err
				}
'''))
e("write-helper", ('''func (p *printer) Write(b []byte) (n int, err error) {
	if p.closed && p.err == nil {
		p.err = errors.New("use of closed Encoder")
	}
	if p.err == nil {
		n, p.err = p.w.Write(b)
	}
	return n, p.err
}
''', '''// ready notes the use of a closed encoder.
func (p *printer) ready() bool {
	if p.closed && p.err == nil {
		p.err = errors.New("use of closed Encoder")
	}
	return p.err == nil
}

func (p *printer) Write(b []byte) (n int, err error) {
	if p.ready() {
		n, p.err = p.w.Write(b)
	}
	return n, p.err
}
'''))
e("write-early", ('''	if p.err == nil {
		n, p.err = p.w.WriteString(s)
	}
	return n, p.err
''', '''	if p.err != nil {
		return 0, p.err
	}
	n, err = p.w.WriteString(s)
	p.err = err
	return n, err
'''))
e("close-order", ('''	if err := p.w.Flush(); err != nil {
		return err
	}
	if len(p.elements) > 0 {
		return fmt.Errorf("unclosed tag <%s>", p.elements[len(p.elements)-1].name)
	}
	return nil
''', '''	err := p.w.Flush()
	if err != nil {
		return err
	}
	if n := len(p.elements); n != 0 {
		return fmt.Errorf("unclosed tag <%s>", p.elements[n-1].name)
	}
	return nil
'''))
e("indent-simplify", ('''	if len(p.prefix) == 0 && len(p.indent) == 0 {
		return
	}
''', '''	if p.prefix == "" && p.indent == "" {
		return
	}
'''), ('''		p.depth--
		if p.indentedIn {
			p.indentedIn = false
			return
		}
		p.indentedIn = false
''', '''		p.depth--
		was := p.indentedIn
		p.indentedIn = false
		if was {
			return
		}
'''))
e("indent-loop", ('''	if len(p.indent) > 0 {
		for i := 0; i < p.depth; i++ {
			p.WriteString(p.indent)
		}
	}
''', '''	if len(p.indent) > 0 {
		for range p.depth {
			p.WriteString(p.indent)
		}
	}
'''))
e("trim-cond", ('''	for ; split < len(parents) && split < len(s.stack); split++ {
		if parents[split] != s.stack[split] {
			break
		}
	}
''', '''	for split < len(parents) && split < len(s.stack) && parents[split] == s.stack[split] {
		split++
	}
'''))
e("trim-down", ('''	for i := len(s.stack) - 1; i >= split; i-- {
		if err := s.p.writeEnd(Name{Local: s.stack[i]}); err != nil {
			return err
		}
	}
''', '''	for i := len(s.stack); i > split; i-- {
		if err := s.p.writeEnd(Name{Local: s.stack[i-1]}); err != nil {
			return err
		}
	}
'''))
e("push-range", ('''	for i := range parents {
		if err := s.p.writeStart(&StartElement{Name: Name{Local: parents[i]}}); err != nil {
			return err
		}
	}
''', '''	for _, parent := range parents {
		start := StartElement{Name: Name{Local: parent}}
		if err := s.p.writeStart(&start); err != nil {
			return err
		}
	}
'''))
e("empty-switch", ('''	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
''', '''	case reflect.String, reflect.Slice, reflect.Map, reflect.Array:
		n := v.Len()
		return n == 0
'''))
e("indirect-loop", ('''	for vf.Kind() == reflect.Interface || vf.Kind() == reflect.Pointer {
		if vf.IsNil() {
			return vf
		}
		vf = vf.Elem()
	}
	return vf
''', '''	for {
		k := vf.Kind()
		if k != reflect.Interface && k != reflect.Pointer || vf.IsNil() {
			return vf
		}
		vf = vf.Elem()
	}
'''))
t("impl-vars", ('''	pt := reflect.PointerTo(t)
	v := typeImpl{
		marshaler:         t.Implements(marshalerType),
		addrMarshaler:     pt.Implements(marshalerType),
		marshalerAttr:     t.Implements(marshalerAttrType),
		addrMarshalerAttr: pt.Implements(marshalerAttrType),
		textMarshaler:     t.Implements(textMarshalerType),
		addrTextMarshaler: pt.Implements(textMarshalerType),
	}
	typeImplMap.Store(t, v)
	return v
''', '''	var v typeImpl
	pt := reflect.PointerTo(t)
	v.marshaler, v.addrMarshaler = t.Implements(marshalerType), pt.Implements(marshalerType)
	v.marshalerAttr, v.addrMarshalerAttr = t.Implements(marshalerAttrType), pt.Implements(marshalerAttrType)
	v.textMarshaler, v.addrTextMarshaler = t.Implements(textMarshalerType), pt.Implements(textMarshalerType)
	typeImplMap.Store(t, v)
	return v
'''))
t("info-loadorstore", ('''	if v, ok := typeImplMap.Load(t); ok {
		return v.(typeImpl)
	}
''', '''	cached, ok := typeImplMap.Load(t)
	if ok {
		return cached.(typeImpl)
	}
'''))
t("info-build", ('''	ti, _ := tinfoMap.LoadOrStore(typ, tinfo) // Returned bool is always false
	return ti.(*typeInfo), nil
}
''', '''	return storeTypeInfo(typ, tinfo), nil
}

// storeTypeInfo keeps the first typeInfo stored for a type.
func storeTypeInfo(typ reflect.Type, tinfo *typeInfo) *typeInfo {
	ti, _ := tinfoMap.LoadOrStore(typ, tinfo)
	return ti.(*typeInfo)
}
'''))
t("info-index-helper", ('''	tinfo.attrs = make(map[attrKey]*fieldInfo, len(tinfo.fields))
	for i := range tinfo.fields {
		fi := &tinfo.fields[i]
		switch fi.flags & fMode {
		case fAttr:
			tinfo.nAttrs++
			// Register under (fi.xmlns, fi.name). Lookup in read.go will
			// try (a.Name.Space, fi.name) first, then ("", fi.name) for
			// fields registered with an empty namespace.
			tinfo.attrs[attrKey{fi.xmlns, fi.name}] = fi
		case fAny | fAttr:
			if tinfo.anyAttr == nil {
				tinfo.anyAttr = fi
			}
		}
	}

''', '''	tinfo.indexAttrs()

'''), ('''// structFieldInfo builds''', '''func (ti *typeInfo) indexAttrs() {
	ti.attrs = make(map[attrKey]*fieldInfo, len(ti.fields))
	for i := range ti.fields {
		fi := &ti.fields[i]
		mode := fi.flags & fMode
		if mode == fAttr {
			ti.nAttrs++
			ti.attrs[attrKey{fi.xmlns, fi.name}] = fi
		} else if mode == fAny|fAttr && ti.anyAttr == nil {
			ti.anyAttr = fi
		}
	}
}

// structFieldInfo builds'''))
t("info-loop", ('''		n := typ.NumField()
		for i := range n {
			f := typ.Field(i)
			if (!f.IsExported() && !f.Anonymous) || f.Tag.Get("xml") == "-" {
				continue // Private field
			}
''', '''		for i, n := 0, typ.NumField(); i < n; i++ {
			f := typ.Field(i)
			if !f.Anonymous && !f.IsExported() {
				continue
			}
			if f.Tag.Get("xml") == "-" {
				continue
			}
'''))
t("info-early", ('''	if ti, ok := tinfoMap.Load(typ); ok {
		return ti.(*typeInfo), nil
	}

	tinfo := &typeInfo{}
''', '''	cached, ok := tinfoMap.Load(typ)
	if ok {
		return cached.(*typeInfo), nil
	}

	tinfo := new(typeInfo)
'''))
t("field-flags-map", ('''			switch flag {
			case "attr":
				finfo.flags |= fAttr
			case "cdata":
				finfo.flags |= fCDATA
			case "chardata":
				finfo.flags |= fCharData
			case "innerxml":
				finfo.flags |= fInnerXML
			case "comment":
				finfo.flags |= fComment
			case "any":
				finfo.flags |= fAny
			case "omitempty":
				finfo.flags |= fOmitEmpty
			}
''', '''			finfo.flags |= flagOf(flag)
'''), ('''// structFieldInfo builds''', '''func flagOf(s string) fieldFlags {
	switch s {
	case "attr":
		return fAttr
	case "cdata":
		return fCDATA
	case "chardata":
		return fCharData
	case "innerxml":
		return fInnerXML
	case "comment":
		return fComment
	case "any":
		return fAny
	case "omitempty":
		return fOmitEmpty
	}
	return 0
}

// structFieldInfo builds'''))
t("field-valid", ('''		if finfo.flags&fMode == fAny {
			finfo.flags |= fElement
		}
		if finfo.flags&fOmitEmpty != 0 && finfo.flags&(fElement|fAttr) == 0 {
			valid = false
		}
		if !valid {
''', '''		if finfo.flags&fMode == fAny {
			finfo.flags |= fElement
		}
		omitOK := finfo.flags&fOmitEmpty == 0 || finfo.flags&(fElement|fAttr) != 0
		if !valid || !omitOK {
'''))
t("field-cut", ('''	if ns, t, ok := strings.Cut(tag, " "); ok {
		finfo.xmlns, tag = ns, t
	}
''', '''	if i := strings.Index(tag, " "); i >= 0 {
		finfo.xmlns, tag = tag[:i], tag[i+1:]
	}
'''))
t("field-last", ('''	if parents[len(parents)-1] == "" {
		return nil, fmt.Errorf("xml: trailing '>' in field %s of type %s", f.Name, typ)
	}
	finfo.prefix, finfo.name = splitPrefixed(parents[len(parents)-1])
''', '''	last := parents[len(parents)-1]
	if last == "" {
		return nil, fmt.Errorf("xml: trailing '>' in field %s of type %s", f.Name, typ)
	}
	finfo.prefix, finfo.name = splitPrefixed(last)
'''))
t("field-xmlname", ('''	if finfo.flags&fElement != 0 {
		ftyp := f.Type
		xmlname := lookupXMLName(ftyp)
		if xmlname != nil && xmlname.name != finfo.name {
''', '''	if ftyp := f.Type; finfo.flags&fElement != 0 {
		if xmlname := lookupXMLName(ftyp); xmlname != nil && xmlname.name != finfo.name {
'''))
t("lookup-range", ('''	for i, n := 0, typ.NumField(); i < n; i++ {
		f := typ.Field(i)
		if f.Name != xmlName {
			continue
		}
		finfo, err := structFieldInfo(typ, &f) // Recursive call
		if err == nil && finfo.name != "" {
			return finfo
		}
		// Also consider errors as a non-existent field tag
		// and let getTypeInfo itself report the error.
		break
	}
	return nil
''', '''	for i := range typ.NumField() {
		f := typ.Field(i)
		if f.Name != xmlName {
			continue
		}
		finfo, err := structFieldInfo(typ, &f)
		if err != nil || finfo.name == "" {
			return nil
		}
		return finfo
	}
	return nil
'''))
t("add-conflict-helper", ('''	var conflicts []int
Loop:
	// First, figure all conflicts. Most working code will have none.
	for i := range tinfo.fields {
		oldf := &tinfo.fields[i]
		if oldf.flags&fMode != newf.flags&fMode {
			continue
		}
		if oldf.xmlns != "" && newf.xmlns != "" && oldf.xmlns != newf.xmlns {
			continue
		}
		minl := min(len(newf.parents), len(oldf.parents))
		for p := range minl {
			if oldf.parents[p] != newf.parents[p] {
				continue Loop
			}
		}
		if len(oldf.parents) > len(newf.parents) {
			if oldf.parents[len(newf.parents)] == newf.name {
				conflicts = append(conflicts, i)
			}
		} else if len(oldf.parents) < len(newf.parents) {
			if newf.parents[len(oldf.parents)] == oldf.name {
				conflicts = append(conflicts, i)
			}
		} else {
			if newf.name == oldf.name && newf.xmlns == oldf.xmlns {
				conflicts = append(conflicts, i)
			}
		}
	}
''', '''	var conflicts []int
	for i := range tinfo.fields {
		if conflicting(&tinfo.fields[i], newf) {
			conflicts = append(conflicts, i)
		}
	}
'''), ('''// A TagPathError represents''', '''func conflicting(oldf, newf *fieldInfo) bool {
	if oldf.flags&fMode != newf.flags&fMode {
		return false
	}
	if oldf.xmlns != "" && newf.xmlns != "" && oldf.xmlns != newf.xmlns {
		return false
	}
	minl := min(len(newf.parents), len(oldf.parents))
	for p := range minl {
		if oldf.parents[p] != newf.parents[p] {
			return false
		}
	}
	switch {
	case len(oldf.parents) > len(newf.parents):
		return oldf.parents[len(newf.parents)] == newf.name
	case len(oldf.parents) < len(newf.parents):
		return newf.parents[len(oldf.parents)] == oldf.name
	}
	return newf.name == oldf.name && newf.xmlns == oldf.xmlns
}

// A TagPathError represents'''))
t("add-one-pass", ('''	for _, i := range conflicts {
		oldf := &tinfo.fields[i]
		if len(oldf.idx) == len(newf.idx) { // Same depth
			f1 := typ.FieldByIndex(oldf.idx)
			f2 := typ.FieldByIndex(newf.idx)
''', '''	depth := len(newf.idx)
	for _, i := range conflicts {
		oldf := tinfo.fields[i]
		if len(oldf.idx) == depth { // Same depth
			f1 := typ.FieldByIndex(oldf.idx)
			f2 := typ.FieldByIndex(newf.idx)
'''))
t("add-drop", ('''	for c := len(conflicts) - 1; c >= 0; c-- {
		i := conflicts[c]
		copy(tinfo.fields[i:], tinfo.fields[i+1:])
		tinfo.fields = tinfo.fields[:len(tinfo.fields)-1]
	}
	tinfo.fields = append(tinfo.fields, *newf)
''', '''	for c := len(conflicts); c > 0; c-- {
		i := conflicts[c-1]
		tinfo.fields = append(tinfo.fields[:i], tinfo.fields[i+1:]...)
	}
	tinfo.fields = append(tinfo.fields, *newf)
'''))

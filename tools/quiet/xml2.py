X="xml/xml.go"; RD="xml/read.go"
R={}
R["r-nsname-cut"]=[(X,"""	n := strings.Count(s, ":")
	if n == 0 { // No colons, no namespace. OK.
		name.Local = s
	} else if n > 1 { // More than one colon, not OK.
		name.Local = s
		return name, false
	} else if i := strings.Index(s, ":"); i < 1 || i > len(s)-2 { // Leading or trailing colon, not OK.
		name.Local = s
		return name, false
	} else {
		name.Space = s[0:i]
		name.Local = s[i+1:]
	}
	return name, true""","""	switch strings.Count(s, ":") {
	case 0: // No colons, no namespace. OK.
		return Name{Local: s}, true
	case 1:
		i := strings.Index(s, ":")
		if i < 1 || i > len(s)-2 { // Leading or trailing colon, not OK.
			return Name{Local: s}, false
		}
		return Name{Space: s[:i], Local: s[i+1:]}, true
	}
	// More than one colon, not OK.
	return Name{Local: s}, false""")]
R["r-name-ret"]=[(X,"""	b := d.buf.Bytes()
	if !isName(b) {
		d.err = d.syntaxError("invalid XML name: " + string(b))
		return "", false
	}
	return d.internBytes(b), true""","""	if b := d.buf.Bytes(); isName(b) {
		return d.internBytes(b), true
	} else {
		d.err = d.syntaxError("invalid XML name: " + string(b))
	}
	return "", false""")]
R["r-readname-loop"]=[(X,"""	d.buf.WriteByte(b)

	for {
		if b, ok = d.mustgetc(); !ok {
			return
		}
		if b < utf8.RuneSelf && !isNameByte(b) {
			d.ungetc(b)
			break
		}
		d.buf.WriteByte(b)
	}
	return true
}""","""	for b >= utf8.RuneSelf || isNameByte(b) {
		d.buf.WriteByte(b)
		if b, ok = d.mustgetc(); !ok {
			return
		}
	}
	d.ungetc(b)
	return true
}""")]
R["r-isname-first"]=[(X,"""	for n < len(s) {
		s = s[n:]
		c, n = utf8.DecodeRune(s)
		if c == utf8.RuneError && n == 1 {
			return false
		}
		if !unicode.Is(first, c) && !unicode.Is(second, c) {
			return false
		}
	}
	return true
}

func isNameString""","""	for s = s[n:]; len(s) > 0; s = s[n:] {
		c, n = utf8.DecodeRune(s)
		if c == utf8.RuneError && n == 1 || !unicode.Is(first, c) && !unicode.Is(second, c) {
			return false
		}
	}
	return true
}

func isNameString""")]
R["r-namebyte-switch"]=[(X,"""	return 'A' <= c && c <= 'Z' ||
		'a' <= c && c <= 'z' ||
		'0' <= c && c <= '9' ||
		c == '_' || c == ':' || c == '.' || c == '-'""","""	switch {
	case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9':
		return true
	}
	switch c {
	case '-', '.', ':', '_':
		return true
	}
	return false""")]
R["r-charrange"]=[(X,"""	return r == 0x09 ||
		r == 0x0A ||
		r == 0x0D ||
		r >= 0x20 && r <= 0xD7FF ||
		r >= 0xE000 && r <= 0xFFFD ||
		r >= 0x10000 && r <= 0x10FFFF""","""	switch {
	case r == '\\t' || r == '\\n' || r == '\\r':
		return true
	case r < 0x20:
		return false
	case r <= 0xD7FF:
		return true
	case 0xE000 <= r && r <= 0xFFFD:
		return true
	}
	return 0x10000 <= r && r <= 0x10FFFF""")]
R["r-escape-helper"]=[(X,"""		default:
			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
				esc = escFFFD
				break
			}
			continue
		}
		p.WriteString(s[last : i-width])
		p.Write(esc)
		last = i
	}""","""		default:
			if isInCharacterRange(r) && !(r == 0xFFFD && width == 1) {
				continue
			}
			esc = escFFFD
		}
		start := i - width
		p.WriteString(s[last:start])
		p.Write(esc)
		last = i
	}""")]
R["r-escape-offset"]=[(X,"""	for i := 0; i < len(s); {
		r, width := utf8.DecodeRune(s[i:])
		i += width
		switch r {""","""	for i := 0; i < len(s); {
		r, width := utf8.DecodeRune(s[i:])
		i = i + width
		switch r {"""),(X,"""		case '\\n':
			if !escapeNewline {
				continue
			}
			esc = escNL
		case '\\r':
			esc = escCR
		default:
			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
				esc = escFFFD
				break
			}
			continue
		}
		if _, err := w.Write(s[last : i-width]); err != nil {""","""		case '\\r':
			esc = escCR
		case '\\n':
			if !escapeNewline {
				continue
			}
			esc = escNL
		default:
			bad := r == 0xFFFD && width == 1
			if !bad && isInCharacterRange(r) {
				continue
			}
			esc = escFFFD
		}
		if _, err := w.Write(s[last : i-width]); err != nil {""")]
R["r-escape-write2"]=[(X,"""		if _, err := w.Write(s[last : i-width]); err != nil {
			return err
		}
		if _, err := w.Write(esc); err != nil {
			return err
		}
		last = i
	}
	_, err := w.Write(s[last:])
	return err
}

// EscapeString""","""		if err := write2(w, s[last:i-width], esc); err != nil {
			return err
		}
		last = i
	}
	_, err := w.Write(s[last:])
	return err
}

func write2(w io.Writer, a, b []byte) error {
	if _, err := w.Write(a); err != nil {
		return err
	}
	_, err := w.Write(b)
	return err
}

// EscapeString""")]
R["r-cdata"]=[(X,"""	for {
		before, after, ok := bytes.Cut(s, cdataEnd)
		if !ok {
			break
		}
		// Found a nested CDATA directive end.
		if _, err := w.Write(before); err != nil {
			return err
		}
		if _, err := w.Write(cdataEscape); err != nil {
			return err
		}
		s = after
	}
""","""	before, after, found := bytes.Cut(s, cdataEnd)
	for found {
		// Found a nested CDATA directive end.
		if _, err := w.Write(before); err != nil {
			return err
		}
		if _, err := w.Write(cdataEscape); err != nil {
			return err
		}
		s = after
		before, after, found = bytes.Cut(s, cdataEnd)
	}
""")]
R["r-procinst"]=[(X,"""	param = param + "="
	lenp := len(param)
	i := 0
	var sep byte
	for i < len(s) {
		sub := s[i:]
		k := strings.Index(sub, param)
		if k < 0 || lenp+k >= len(sub) {
			return ""
		}
		i += lenp + k + 1
		if c := sub[lenp+k]; c == '\\'' || c == '"' {
			sep = c
			break
		}
	}
""","""	param += "="
	i := 0
	sep := byte(0)
	for i < len(s) {
		sub := s[i:]
		k := strings.Index(sub, param)
		if k < 0 {
			return ""
		}
		at := k + len(param)
		if at >= len(sub) {
			return ""
		}
		i += at + 1
		c := sub[at]
		if c == '"' || c == '\\'' {
			sep = c
			break
		}
	}
""")]
R["r-decodeelement"]=[(RD,"""	if val.Kind() != reflect.Pointer {
		return errors.New("non-pointer passed to Unmarshal")
	}

	if val.IsNil() {
		return errors.New("nil pointer passed to Unmarshal")
	}
	return d.unmarshal(val.Elem(), start, 0)""","""	switch {
	case val.Kind() != reflect.Pointer:
		return errors.New("non-pointer passed to Unmarshal")
	case val.IsNil():
		return errors.New("nil pointer passed to Unmarshal")
	}
	target := val.Elem()
	return d.unmarshal(target, start, 0)""")]
R["r-unminterface"]=[(RD,"""	d.unmarshalDepth++
	err := val.UnmarshalXML(d, *start)
	d.unmarshalDepth--
	if err != nil {
		d.popEOF()
		return err
	}

	if !d.popEOF() {""","""	d.unmarshalDepth += 1
	err := val.UnmarshalXML(d, *start)
	d.unmarshalDepth -= 1
	ended := d.popEOF()
	if err != nil {
		return err
	}

	if !ended {""")]
R["r-untext"]=[(RD,"""	depth := 1
	for depth > 0 {
		t, err := d.Token()
		if err != nil {
			return err
		}
		switch t := t.(type) {
		case CharData:
			if depth == 1 {
				buf = append(buf, t...)
			}
		case StartElement:
			depth++
		case EndElement:
			depth--
		}
	}
	return val.UnmarshalText(buf)""","""	for depth := 1; depth > 0; {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch t := tok.(type) {
		case StartElement:
			depth++
		case EndElement:
			depth--
		case CharData:
			if depth == 1 {
				buf = append(buf, t...)
			}
		}
	}
	return val.UnmarshalText(buf)""")]
R["r-unattr-helper"]=[(RD,"""	if val.CanInterface() && val.Type().Implements(unmarshalerAttrType) {
		// This is an unmarshaler with a non-pointer receiver,
		// so it's likely to be incorrect, but we do what we're told.
		return val.Interface().(UnmarshalerAttr).UnmarshalXMLAttr(attr)
	}
	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && pv.Type().Implements(unmarshalerAttrType) {
			return pv.Interface().(UnmarshalerAttr).UnmarshalXMLAttr(attr)
		}
	}
""","""	if v, ok := implementer(val, unmarshalerAttrType); ok {
		return v.(UnmarshalerAttr).UnmarshalXMLAttr(attr)
	}
"""),(RD,"""// unmarshalAttr unmarshals""","""// implementer finds val or its address implementing typ.
func implementer(val reflect.Value, typ reflect.Type) (any, bool) {
	if val.CanInterface() && val.Type().Implements(typ) {
		return val.Interface(), true
	}
	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && pv.Type().Implements(typ) {
			return pv.Interface(), true
		}
	}
	return nil, false
}

// unmarshalAttr unmarshals""")]
R["r-unattr-slice"]=[(RD,"""		n := val.Len()
		val.Grow(1)
		val.SetLen(n + 1)

		// Recur to read element into slice.
		if err := d.unmarshalAttr(val.Index(n), attr); err != nil {
			val.SetLen(n)
			return err
		}
		return nil
	}

	if val.Type() == attrType {""","""		n := val.Len()
		val.Grow(1)
		val.SetLen(n + 1)

		// Recur to read element into slice.
		err := d.unmarshalAttr(val.Index(n), attr)
		if err != nil {
			val.SetLen(n)
		}
		return err
	}

	if val.Type() == attrType {""")]
R["r-unm-start"]=[(RD,"""	if start == nil {
		for {
			tok, err := d.Token()
			if err != nil {
				return err
			}
			if t, ok := tok.(StartElement); ok {
				start = &t
				break
			}
		}
	}
""","""	for start == nil {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		if t, ok := tok.(StartElement); ok {
			start = &t
		}
	}
""")]
R["r-unm-start-helper"]=[(RD,"""	if start == nil {
		for {
			tok, err := d.Token()
			if err != nil {
				return err
			}
			if t, ok := tok.(StartElement); ok {
				start = &t
				break
			}
		}
	}
""","""	if start == nil {
		first, err := d.firstStart()
		if err != nil {
			return err
		}
		start = first
	}
"""),(RD,"""// Unmarshal a single XML element into val.""","""// firstStart reads on to the next start element.
func (d *Decoder) firstStart() (*StartElement, error) {
	for {
		tok, err := d.Token()
		if err != nil {
			return nil, err
		}
		if t, ok := tok.(StartElement); ok {
			return &t, nil
		}
	}
}

// Unmarshal a single XML element into val.""")]
R["r-unm-depthcheck"]=[(RD,"""	if depth >= maxUnmarshalDepth || runtime.GOARCH == "wasm" && depth >= maxUnmarshalDepthWasm {
		return errUnmarshalDepth
	}""","""	limit := maxUnmarshalDepth
	if runtime.GOARCH == "wasm" {
		limit = maxUnmarshalDepthWasm
	}
	if depth >= limit {
		return errUnmarshalDepth
	}""")]
R["r-unm-attrs"]=[(RD,"""			fi, ok := tinfo.attrs[attrKey{a.Name.Space, a.Name.Local}]
			if !ok {
				// A field registered with empty xmlns matches any namespace.
				fi, ok = tinfo.attrs[attrKey{"", a.Name.Local}]
			}
			if ok {
				strv := fi.value(sv, initNilPointers)
				if err := d.unmarshalAttr(strv, a); err != nil {
					return err
				}
				continue
			}
			if tinfo.anyAttr != nil {
				strv := tinfo.anyAttr.value(sv, initNilPointers)
				if err := d.unmarshalAttr(strv, a); err != nil {
					return err
				}
			}
""","""			fi := tinfo.attrField(a.Name)
			if fi == nil {
				continue
			}
			if err := d.unmarshalAttr(fi.value(sv, initNilPointers), a); err != nil {
				return err
			}
"""),(RD,"""// Unmarshal a single XML element into val.""","""// attrField finds the field for an attribute, or nil.
func (tinfo *typeInfo) attrField(name Name) *fieldInfo {
	if fi, ok := tinfo.attrs[attrKey{name.Space, name.Local}]; ok {
		return fi
	}
	// A field registered with empty xmlns matches any namespace.
	if fi, ok := tinfo.attrs[attrKey{"", name.Local}]; ok {
		return fi
	}
	return tinfo.anyAttr
}

// Unmarshal a single XML element into val.""")]
R["r-unm-xmlname"]=[(RD,"""			noValue := true
			if sv.Type().Name() == "" && sv.Type().Kind() == reflect.Struct {
				i := 0
				for i < sv.Type().NumField() && noValue {
					noValue = noValue && sv.Type().Field(i).Anonymous
					i++
				}
			} else {
				noValue = false
			}
			if !noValue {
				fv := finfo.value(sv, initNilPointers)""","""			if !allAnonymous(sv.Type()) {
				fv := finfo.value(sv, initNilPointers)"""),(RD,"""// Unmarshal a single XML element into val.""","""// allAnonymous: an unnamed struct with embedded fields only.
func allAnonymous(t reflect.Type) bool {
	if t.Name() != "" || t.Kind() != reflect.Struct {
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		if !t.Field(i).Anonymous {
			return false
		}
	}
	return true
}

// Unmarshal a single XML element into val.""")]
R["r-unm-consumed"]=[(RD,"""			consumed := false
			if sv.IsValid() {
				// unmarshalPath can call unmarshal, so we need to pass the depth through so that
				// we can continue to enforce the maximum recursion limit.
				consumed, err = d.unmarshalPath(tinfo, sv, nil, &t, depth)
				if err != nil {
					return err
				}
				if !consumed && saveAny.IsValid() {
					consumed = true
					if err := d.unmarshal(saveAny, &t, depth+1); err != nil {
						return err
					}
				}
			}
			if !consumed {
				if err := d.Skip(); err != nil {
					return err
				}
			}
""","""			consumed := false
			if sv.IsValid() {
				// unmarshalPath can call unmarshal, so we need to pass the depth through so that
				// we can continue to enforce the maximum recursion limit.
				if consumed, err = d.unmarshalPath(tinfo, sv, nil, &t, depth); err != nil {
					return err
				}
			}
			if consumed {
				continue Loop
			}
			if sv.IsValid() && saveAny.IsValid() {
				err = d.unmarshal(saveAny, &t, depth+1)
			} else {
				err = d.Skip()
			}
			if err != nil {
				return err
			}
""")]
R["r-unm-flags"]=[(RD,"""			case fAny, fAny | fElement:
				if !saveAny.IsValid() {
					saveAny = finfo.value(sv, initNilPointers)
				}

			case fInnerXML:
				if !saveXML.IsValid() {
					saveXML = finfo.value(sv, initNilPointers)
					if d.saved == nil {
						saveXMLIndex = 0
						d.saved = new(bytes.Buffer)
					} else {
						saveXMLIndex = d.savedOffset()
					}
				}
			}""","""			case fInnerXML:
				if saveXML.IsValid() {
					continue
				}
				saveXML = finfo.value(sv, initNilPointers)
				if d.saved != nil {
					saveXMLIndex = d.savedOffset()
				} else {
					saveXMLIndex = 0
					d.saved = &bytes.Buffer{}
				}

			case fAny, fAny | fElement:
				if !saveAny.IsValid() {
					saveAny = finfo.value(sv, initNilPointers)
				}
			}""")]
R["r-unm-end"]=[(RD,"""		case EndElement:
			if saveXML.IsValid() {
				saveXMLData = d.saved.Bytes()[saveXMLIndex:savedOffset]
				if saveXMLIndex == 0 {
					d.saved = nil
				}
			}
			break Loop

		case CharData:
			if saveData.IsValid() {
				data = append(data, t...)
			}

		case Comment:
			if saveComment.IsValid() {
				comment = append(comment, t...)
			}
		}
	}
""","""		case Comment:
			if !saveComment.IsValid() {
				continue
			}
			comment = append(comment, t...)

		case CharData:
			if !saveData.IsValid() {
				continue
			}
			data = append(data, t...)

		case EndElement:
			if saveXML.IsValid() {
				saved := d.saved.Bytes()
				saveXMLData = saved[saveXMLIndex:savedOffset]
				if saveXMLIndex == 0 {
					d.saved = nil
				}
			}
			break Loop
		}
	}
""")]
R["r-copy-parse-helper"]=[(RD,"""		if len(src) == 0 {
			dst.SetInt(0)
			return nil
		}
		itmp, err := strconv.ParseInt(strings.TrimSpace(string(src)), 10, dst.Type().Bits())
		if err != nil {
			return err
		}
		dst.SetInt(itmp)
""","""		var itmp int64
		if len(src) > 0 {
			text := strings.TrimSpace(string(src))
			if itmp, err = strconv.ParseInt(text, 10, dst.Type().Bits()); err != nil {
				return err
			}
		}
		dst.SetInt(itmp)
"""),(RD,"""		value, err := strconv.ParseBool(strings.TrimSpace(string(src)))
		if err != nil {
			return err
		}
		dst.SetBool(value)
""","""		trimmed := strings.TrimSpace(string(src))
		if value, err := strconv.ParseBool(trimmed); err != nil {
			return err
		} else {
			dst.SetBool(value)
		}
""")]
R["r-copy-split"]=[(RD,"""	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if len(src) == 0 {
			dst.SetUint(0)
			return nil
		}
		utmp, err := strconv.ParseUint(strings.TrimSpace(string(src)), 10, dst.Type().Bits())
		if err != nil {
			return err
		}
		dst.SetUint(utmp)
""","""	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return setUint(dst, src)
"""),(RD,"""// unmarshalPath walks""","""func setUint(dst reflect.Value, src []byte) error {
	if len(src) == 0 {
		dst.SetUint(0)
		return nil
	}
	u, err := strconv.ParseUint(strings.TrimSpace(string(src)), 10, dst.Type().Bits())
	if err == nil {
		dst.SetUint(u)
	}
	return err
}

// unmarshalPath walks""")]
R["r-path-conds"]=[(RD,"""		if finfo.flags&fElement == 0 || len(finfo.parents) < len(parents) || finfo.xmlns != "" && finfo.xmlns != start.Name.Space {
			continue
		}
		for j := range parents {
			if parents[j] != finfo.parents[j] {
				continue Loop
			}
		}""","""		if finfo.flags&fElement == 0 {
			continue
		}
		if len(finfo.parents) < len(parents) {
			continue
		}
		if finfo.xmlns != "" && start.Name.Space != finfo.xmlns {
			continue
		}
		for j, p := range parents {
			if finfo.parents[j] != p {
				continue Loop
			}
		}""")]
R["r-path-prefix-helper"]=[(RD,"""		for j := range parents {
			if parents[j] != finfo.parents[j] {
				continue Loop
			}
		}
		if len(finfo.parents) == len(parents) && finfo.name == start.Name.Local {""","""		if !hasPrefixPath(finfo.parents, parents) {
			continue Loop
		}
		if len(finfo.parents) == len(parents) && finfo.name == start.Name.Local {"""),(RD,"""// unmarshalPath walks""","""func hasPrefixPath(path, prefix []string) bool {
	for j := range prefix {
		if prefix[j] != path[j] {
			return false
		}
	}
	return true
}

// unmarshalPath walks""")]
R["r-path-loop"]=[(RD,"""	for {
		var tok Token
		tok, err = d.Token()
		if err != nil {
			return true, err
		}
		switch t := tok.(type) {
		case StartElement:
			// the recursion depth of unmarshalPath is limited to the path length specified
			// by the struct field tag, so we don't increment the depth here.
			consumed2, err := d.unmarshalPath(tinfo, sv, parents, &t, depth)
			if err != nil {
				return true, err
			}
			if !consumed2 {
				if err := d.Skip(); err != nil {
					return true, err
				}
			}
		case EndElement:
			return true, nil
		}
	}""","""	for {
		tok, err := d.Token()
		if err != nil {
			return true, err
		}
		if _, end := tok.(EndElement); end {
			return true, nil
		}
		t, ok := tok.(StartElement)
		if !ok {
			continue
		}
		// the recursion depth of unmarshalPath is limited to the path length specified
		// by the struct field tag, so we don't increment the depth here.
		found, err := d.unmarshalPath(tinfo, sv, parents, &t, depth)
		if err == nil && !found {
			err = d.Skip()
		}
		if err != nil {
			return true, err
		}
	}""")]
R["r-skip"]=[(RD,"""	var depth int64
	for {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch tok.(type) {
		case StartElement:
			depth++
		case EndElement:
			if depth == 0 {
				return nil
			}
			depth--
		}
	}""","""	for depth := 1; depth > 0; {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch tok.(type) {
		case StartElement:
			depth++
		case EndElement:
			depth--
		}
	}
	return nil""")]
R["r-skip-int"]=[(RD,"""	var depth int64
	for {
		tok, err := d.Token()""","""	depth := 0
	for {
		tok, err := d.Token()""")]

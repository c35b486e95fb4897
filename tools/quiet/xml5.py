# Further edits of read.go that keep the behaviour.
D = "xml/read.go"
R = {}


def r(name, *reps):
    R["w-" + name] = list(reps)


PTR = """	if val.Kind() == reflect.Pointer {
		if val.IsNil() {
			val.Set(reflect.New(val.Type().Elem()))
		}
		val = val.Elem()
	}
"""
r("indirect", (D, PTR + """	if val.CanInterface() && val.Type().Implements(unmarshalerAttrType) {""", """	val = pointee(val)
	if val.CanInterface() && val.Type().Implements(unmarshalerAttrType) {"""),
  (D, PTR + """
	if val.CanInterface() && val.Type().Implements(unmarshalerType) {""", """	val = pointee(val)

	if val.CanInterface() && val.Type().Implements(unmarshalerType) {"""),
  (D, """	if dst.Kind() == reflect.Pointer {
		if dst.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
		}
		dst = dst.Elem()
	}
""", """	dst = pointee(dst)
"""),
  (D, """func copyValue(""", """// pointee follows a pointer, allocating what it should point to.
func pointee(v reflect.Value) reflect.Value {
	if v.Kind() != reflect.Pointer {
		return v
	}
	if v.IsNil() {
		v.Set(reflect.New(v.Type().Elem()))
	}
	return v.Elem()
}

func copyValue("""))
r("as-unmarshaler", (D, """	if val.CanInterface() && val.Type().Implements(unmarshalerType) {
		// This is an unmarshaler with a non-pointer receiver,
		// so it's likely to be incorrect, but we do what we're told.
		return d.unmarshalInterface(val.Interface().(Unmarshaler), start)
	}

	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && pv.Type().Implements(unmarshalerType) {
			return d.unmarshalInterface(pv.Interface().(Unmarshaler), start)
		}
	}

	if val.CanInterface() && val.Type().Implements(textUnmarshalerType) {
		return d.unmarshalTextInterface(val.Interface().(encoding.TextUnmarshaler))
	}

	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) {
			return d.unmarshalTextInterface(pv.Interface().(encoding.TextUnmarshaler))
		}
	}
""", """	if v, ok := implementing(val, unmarshalerType); ok {
		return d.unmarshalInterface(v.(Unmarshaler), start)
	}
	if v, ok := implementing(val, textUnmarshalerType); ok {
		return d.unmarshalTextInterface(v.(encoding.TextUnmarshaler))
	}
"""),
  (D, """func copyValue(""", """// implementing finds the value, or its address, if it implements iface.
func implementing(val reflect.Value, iface reflect.Type) (any, bool) {
	if val.CanInterface() && val.Type().Implements(iface) {
		// This is an unmarshaler with a non-pointer receiver,
		// so it's likely to be incorrect, but we do what we're told.
		return val.Interface(), true
	}
	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && pv.Type().Implements(iface) {
			return pv.Interface(), true
		}
	}
	return nil, false
}

func copyValue("""))
r("attr-helper", (D, """	if val.CanInterface() && val.Type().Implements(unmarshalerAttrType) {
		// This is an unmarshaler with a non-pointer receiver,
		// so it's likely to be incorrect, but we do what we're told.
		return val.Interface().(UnmarshalerAttr).UnmarshalXMLAttr(attr)
	}
	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && pv.Type().Implements(unmarshalerAttrType) {
			return pv.Interface().(UnmarshalerAttr).UnmarshalXMLAttr(attr)
		}
	}
""", """	if u := attrUnmarshaler(val); u != nil {
		return u.UnmarshalXMLAttr(attr)
	}
"""), (D, """// unmarshalAttr unmarshals""", """// attrUnmarshaler is the attribute unmarshaler of val, or nil.
func attrUnmarshaler(val reflect.Value) UnmarshalerAttr {
	if val.CanInterface() && val.Type().Implements(unmarshalerAttrType) {
		return val.Interface().(UnmarshalerAttr)
	}
	if val.CanAddr() {
		pv := val.Addr()
		if pv.CanInterface() && pv.Type().Implements(unmarshalerAttrType) {
			return pv.Interface().(UnmarshalerAttr)
		}
	}
	return nil
}

// unmarshalAttr unmarshals"""))
r("next-start", (D, """	if start == nil {
		for {
			tok, err := d.Token()
			if err != nil {
				return err
			}
			if t, ok := tok.(StartElement); ok {
				start = &t
				break
			}
		}
	}
""", """	if start == nil {
		first, err := d.nextStart()
		if err != nil {
			return err
		}
		start = first
	}
"""), (D, """// Unmarshal a single XML element into val.
""", """// nextStart reads up to the next start element.
func (d *Decoder) nextStart() (*StartElement, error) {
	for {
		tok, err := d.Token()
		if err != nil {
			return nil, err
		}
		if t, ok := tok.(StartElement); ok {
			return &t, nil
		}
	}
}

// Unmarshal a single XML element into val.
"""))
r("novalue", (D, """			noValue := true
			if sv.Type().Name() == "" && sv.Type().Kind() == reflect.Struct {
				i := 0
				for i < sv.Type().NumField() && noValue {
					noValue = noValue && sv.Type().Field(i).Anonymous
					i++
				}
			} else {
				noValue = false
			}
			if !noValue {
""", """			if !hasNoValue(typ) {
"""), (D, """func copyValue(""", """func hasNoValue(typ reflect.Type) bool {
	if typ.Name() != "" || typ.Kind() != reflect.Struct {
		return false
	}
	for i := 0; i < typ.NumField(); i++ {
		if !typ.Field(i).Anonymous {
			return false
		}
	}
	return true
}

func copyValue("""))
r("copy-hoist", (D, """	// Save accumulated data.
	switch dst.Kind() {""", """	// Save accumulated data.
	empty := len(src) == 0
	switch dst.Kind() {"""),
  (D, """		if len(src) == 0 {
			dst.SetInt(0)
			return nil
		}
""", """		if empty {
			dst.SetInt(0)
			break
		}
"""),
  (D, """		if len(src) == 0 {
			dst.SetBool(false)
			return nil
		}
""", """		if empty {
			dst.SetBool(false)
			break
		}
"""),
  (D, """		if len(src) == 0 {
			// non-nil to flag presence
""", """		if empty {
			// non-nil to flag presence
"""))
r("copy-parse", (D, """		ftmp, err := strconv.ParseFloat(strings.TrimSpace(string(src)), dst.Type().Bits())
		if err != nil {
			return err
		}
		dst.SetFloat(ftmp)
""", """		var ftmp float64
		if ftmp, err = strconv.ParseFloat(strings.TrimSpace(string(src)), dst.Type().Bits()); err == nil {
			dst.SetFloat(ftmp)
		}
		return err
"""))
r("copy-text", (D, """	// Save accumulated data.
	switch dst.Kind() {""", """	// Save accumulated data.
	trimmed := func() string { return strings.TrimSpace(string(src)) }
	switch dst.Kind() {"""),
  (D, """strconv.ParseInt(strings.TrimSpace(string(src)), 10""", """strconv.ParseInt(trimmed(), 10"""),
  (D, """strconv.ParseUint(strings.TrimSpace(string(src)), 10""", """strconv.ParseUint(trimmed(), 10"""),
  (D, """strconv.ParseBool(strings.TrimSpace(string(src)))""", """strconv.ParseBool(trimmed())"""))
r("copy-order", (D, """	case reflect.Invalid:
		// Probably a comment.
	default:
		return errors.New("cannot unmarshal into " + dst0.Type().String())
	case reflect.Int, reflect.Int8,""", """	case reflect.String:
		dst.SetString(string(src))
	case reflect.Int, reflect.Int8,"""),
  (D, """	case reflect.String:
		dst.SetString(string(src))
	case reflect.Slice:
		if len(src) == 0 {
			// non-nil to flag presence
			src = []byte{}
		}
		dst.SetBytes(src)
	}
""", """	case reflect.Slice:
		if src == nil || len(src) == 0 {
			// non-nil to flag presence
			src = []byte{}
		}
		dst.SetBytes(src)
	case reflect.Invalid:
		// Probably a comment.
	default:
		return errors.New("cannot unmarshal into " + dst0.Type().String())
	}
"""))
r("scan-method", (D, """			switch finfo.flags & fMode {
			case fCDATA, fCharData:
				if !saveData.IsValid() {
					saveData = finfo.value(sv, initNilPointers)
				}

			case fComment:
				if !saveComment.IsValid() {
					saveComment = finfo.value(sv, initNilPointers)
				}

			case fAny, fAny | fElement:
				if !saveAny.IsValid() {
					saveAny = finfo.value(sv, initNilPointers)
				}
""", """			switch finfo.flags & fMode {
			case fCDATA, fCharData:
				saveData = finfo.once(saveData, sv)

			case fComment:
				saveComment = finfo.once(saveComment, sv)

			case fAny, fAny | fElement:
				saveAny = finfo.once(saveAny, sv)
"""), (D, """func copyValue(""", """// once is the field's value in sv, unless an earlier field came before it.
func (finfo *fieldInfo) once(have, sv reflect.Value) reflect.Value {
	if have.IsValid() {
		return have
	}
	return finfo.value(sv, initNilPointers)
}

func copyValue("""))
r("scan-if", (D, """			case fInnerXML:
				if !saveXML.IsValid() {
					saveXML = finfo.value(sv, initNilPointers)
					if d.saved == nil {
						saveXMLIndex = 0
						d.saved = new(bytes.Buffer)
					} else {
						saveXMLIndex = d.savedOffset()
					}
				}
			}
""", """			case fInnerXML:
				if saveXML.IsValid() {
					continue
				}
				saveXML = finfo.value(sv, initNilPointers)
				if d.saved != nil {
					saveXMLIndex = d.savedOffset()
					continue
				}
				saveXMLIndex, d.saved = 0, &bytes.Buffer{}
			}
"""))
r("attr-lookup", (D, """			// Try exact match (namespace + local name) first.
			fi, ok := tinfo.attrs[attrKey{a.Name.Space, a.Name.Local}]
			if !ok {
				// A field registered with empty xmlns matches any namespace.
				fi, ok = tinfo.attrs[attrKey{"", a.Name.Local}]
			}
			if ok {
				strv := fi.value(sv, initNilPointers)
				if err := d.unmarshalAttr(strv, a); err != nil {
					return err
				}
				continue
			}
			if tinfo.anyAttr != nil {
				strv := tinfo.anyAttr.value(sv, initNilPointers)
				if err := d.unmarshalAttr(strv, a); err != nil {
					return err
				}
			}
""", """			fi := tinfo.attrField(a.Name)
			if fi == nil {
				continue
			}
			if err := d.unmarshalAttr(fi.value(sv, initNilPointers), a); err != nil {
				return err
			}
"""), (D, """func copyValue(""", """// attrField is the field for the attribute of that name, or nil.
func (tinfo *typeInfo) attrField(name Name) *fieldInfo {
	// Try exact match (namespace + local name) first.
	if fi, ok := tinfo.attrs[attrKey{name.Space, name.Local}]; ok {
		return fi
	}
	// A field registered with empty xmlns matches any namespace.
	if fi, ok := tinfo.attrs[attrKey{"", name.Local}]; ok {
		return fi
	}
	return tinfo.anyAttr
}

func copyValue("""))
r("attr-single", (D, """			if ok {
				strv := fi.value(sv, initNilPointers)
				if err := d.unmarshalAttr(strv, a); err != nil {
					return err
				}
				continue
			}
			if tinfo.anyAttr != nil {
				strv := tinfo.anyAttr.value(sv, initNilPointers)
				if err := d.unmarshalAttr(strv, a); err != nil {
					return err
				}
			}
""", """			if !ok {
				if tinfo.anyAttr == nil {
					continue
				}
				fi = tinfo.anyAttr
			}
			strv := fi.value(sv, initNilPointers)
			if err = d.unmarshalAttr(strv, a); err != nil {
				return err
			}
"""))
r("loop-done", (D, """Loop:
	for {
		var savedOffset int
		if saveXML.IsValid() {""", """	for done := false; !done; {
		var savedOffset int
		if saveXML.IsValid() {"""), (D, """			break Loop

		case CharData:""", """			done = true

		case CharData:"""))
r("child-func", (D, """			consumed := false
			if sv.IsValid() {
				// unmarshalPath can call unmarshal, so we need to pass the depth through so that
				// we can continue to enforce the maximum recursion limit.
				consumed, err = d.unmarshalPath(tinfo, sv, nil, &t, depth)
				if err != nil {
					return err
				}
				if !consumed && saveAny.IsValid() {
					consumed = true
					if err := d.unmarshal(saveAny, &t, depth+1); err != nil {
						return err
					}
				}
			}
			if !consumed {
				if err := d.Skip(); err != nil {
					return err
				}
			}
""", """			if err := d.child(tinfo, sv, saveAny, &t, depth); err != nil {
				return err
			}
"""), (D, """func copyValue(""", """// child unmarshals one child element into sv, or skips it.
func (d *Decoder) child(tinfo *typeInfo, sv, rest reflect.Value, start *StartElement, depth int) error {
	if !sv.IsValid() {
		return d.Skip()
	}
	// unmarshalPath can call unmarshal, so we need to pass the depth through so that
	// we can continue to enforce the maximum recursion limit.
	switch consumed, err := d.unmarshalPath(tinfo, sv, nil, start, depth); {
	case err != nil || consumed:
		return err
	case rest.IsValid():
		return d.unmarshal(rest, start, depth+1)
	}
	return d.Skip()
}

func copyValue("""))
r("skip-one", (D, """	var depth int64
	for {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch tok.(type) {
		case StartElement:
			depth++
		case EndElement:
			if depth == 0 {
				return nil
			}
			depth--
		}
	}
""", """	for depth := int64(1); depth > 0; {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch tok.(type) {
		case StartElement:
			depth++
		case EndElement:
			depth--
		}
	}
	return nil
"""))
r("skip-helper", (D, """	var depth int64
	for {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch tok.(type) {
		case StartElement:
			depth++
		case EndElement:
			if depth == 0 {
				return nil
			}
			depth--
		}
	}
""", """	var depth int64
	for {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		if _, ok := tok.(StartElement); ok {
			depth++
			continue
		}
		if _, ok := tok.(EndElement); !ok {
			continue
		}
		if depth == 0 {
			return nil
		}
		depth--
	}
"""))
r("path-equal", (D, """		for j := range parents {
			if parents[j] != finfo.parents[j] {
				continue Loop
			}
		}
""", """		if !slices.Equal(finfo.parents[:len(parents)], parents) {
			continue
		}
"""), (D, """	recurse := false
Loop:
""", """	recurse := false
"""), (D, """	"runtime"
""", """	"runtime"
	"slices"
"""))
r("path-prefix", (D, """		if finfo.flags&fElement == 0 || len(finfo.parents) < len(parents) || finfo.xmlns != "" && finfo.xmlns != start.Name.Space {
			continue
		}
		for j := range parents {
			if parents[j] != finfo.parents[j] {
				continue Loop
			}
		}
""", """		if finfo.flags&fElement == 0 || !finfo.under(parents) || finfo.xmlns != "" && finfo.xmlns != start.Name.Space {
			continue
		}
"""), (D, """	recurse := false
Loop:
""", """	recurse := false
"""), (D, """func copyValue(""", """// under: the field's path starts with parents.
func (finfo *fieldInfo) under(parents []string) bool {
	if len(finfo.parents) < len(parents) {
		return false
	}
	for j, p := range parents {
		if p != finfo.parents[j] {
			return false
		}
	}
	return true
}

func copyValue("""))
r("path-norecurse", (D, """			recurse = true

			// We can reuse the same slice as long as we
			// don't try to append to it.
			parents = finfo.parents[:len(parents)+1]
			break
		}
	}
	if !recurse {
		// We have no business with this element.
		return false, nil
	}
	// The element is not a perfect match for any field, but one
	// or more fields have the path to this element as a parent
	// prefix. Recurse and attempt to match these.
	for {
""", """			// We can reuse the same slice as long as we
			// don't try to append to it.
			return d.unmarshalBelow(tinfo, sv, finfo.parents[:len(parents)+1], depth)
		}
	}
	// We have no business with this element.
	return false, nil
}

// unmarshalBelow: the element is not a perfect match for any field, but one
// or more fields have the path to this element as a parent
// prefix. Recurse and attempt to match these.
func (d *Decoder) unmarshalBelow(tinfo *typeInfo, sv reflect.Value, parents []string, depth int) (consumed bool, err error) {
	for {
"""), (D, """	recurse := false
Loop:
""", """Loop:
"""))
r("path-index", (D, """Loop:
	for i := range tinfo.fields {
		finfo := &tinfo.fields[i]
		if finfo.flags&fElement""", """Loop:
	for i := 0; i < len(tinfo.fields); i++ {
		finfo := &tinfo.fields[i]
		if finfo.flags&fElement"""), (D, """		for j := range parents {
			if parents[j] != finfo.parents[j] {""", """		for j, parent := range parents {
			if finfo.parents[j] != parent {"""))
r("text-loop", (D, """	depth := 1
	for depth > 0 {
		t, err := d.Token()
		if err != nil {
			return err
		}
		switch t := t.(type) {
		case CharData:
			if depth == 1 {
				buf = append(buf, t...)
			}
		case StartElement:
			depth++
		case EndElement:
			depth--
		}
	}
	return val.UnmarshalText(buf)
""", """	for depth := 1; ; {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch t := tok.(type) {
		case StartElement:
			depth++
		case EndElement:
			depth--
			if depth == 0 {
				return val.UnmarshalText(buf)
			}
		case CharData:
			if depth > 1 {
				continue
			}
			buf = append(buf, t...)
		}
	}
"""))
r("text-skip", (D, """			if depth == 1 {
				buf = append(buf, t...)
			}
		case StartElement:
			depth++
		case EndElement:
			depth--
		}
	}
""", """			if depth != 1 {
				break
			}
			buf = append(buf, []byte(t)...)
		case StartElement:
			depth += 1
		case EndElement:
			depth -= 1
		}
	}
"""))
r("final-text", (D, """	if saveData.IsValid() && saveData.CanInterface() && saveData.Type().Implements(textUnmarshalerType) {
		if err := saveData.Interface().(encoding.TextUnmarshaler).UnmarshalText(data); err != nil {
			return err
		}
		saveData = reflect.Value{}
	}

	if saveData.IsValid() && saveData.CanAddr() {
		pv := saveData.Addr()
		if pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) {
			if err := pv.Interface().(encoding.TextUnmarshaler).UnmarshalText(data); err != nil {
				return err
			}
			saveData = reflect.Value{}
		}
	}
""", """	if u := textTarget(saveData); u != nil {
		if err := u.UnmarshalText(data); err != nil {
			return err
		}
		saveData = reflect.Value{}
	}
"""), (D, """func copyValue(""", """// textTarget is the text unmarshaler that takes the character data, or nil.
func textTarget(v reflect.Value) encoding.TextUnmarshaler {
	if !v.IsValid() {
		return nil
	}
	if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
		return v.Interface().(encoding.TextUnmarshaler)
	}
	if !v.CanAddr() {
		return nil
	}
	if pv := v.Addr(); pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) {
		return pv.Interface().(encoding.TextUnmarshaler)
	}
	return nil
}

func copyValue("""))
r("decode-one-if", (D, """	if val.Kind() != reflect.Pointer {
		return errors.New("non-pointer passed to Unmarshal")
	}

	if val.IsNil() {
		return errors.New("nil pointer passed to Unmarshal")
	}
	return d.unmarshal(val.Elem(), start, 0)
""", """	switch {
	case val.Kind() != reflect.Pointer:
		return errors.New("non-pointer passed to Unmarshal")
	case val.IsNil():
		return errors.New("nil pointer passed to Unmarshal")
	default:
		return d.unmarshal(val.Elem(), start, 0)
	}
"""))
r("receiver-name", (D, """	if t.Name() != "" {
		return t.String()
	}
	return "(" + t.String() + ")"
""", """	s := t.String()
	if t.Name() == "" {
		s = "(" + s + ")"
	}
	return s
"""))
r("interface-err", (D, """	err := val.UnmarshalXML(d, *start)
	d.unmarshalDepth--
	if err != nil {
		d.popEOF()
		return err
	}

	if !d.popEOF() {
		return fmt.Errorf(""", """	err := val.UnmarshalXML(d, *start)
	d.unmarshalDepth--
	consumed := d.popEOF()
	switch {
	case err != nil:
		return err
	case !consumed:
		return fmt.Errorf("""))
r("nsmsg", (D, """				e := "expected element <" + finfo.name + "> in namespace " + finfo.xmlns + " but have "
				if start.Name.Space == "" {
					e += "no namespace"
				} else {
					e += start.Name.Space
				}
				return UnmarshalError(e)
""", """				have := start.Name.Space
				if have == "" {
					have = "no namespace"
				}
				return UnmarshalError("expected element <" + finfo.name + "> in namespace " + finfo.xmlns + " but have " + have)
"""))
r("xmlname-check", (D, """		// Validate and assign element name.
		if tinfo.xmlname != nil {
			finfo := tinfo.xmlname
			if finfo.name != "" && finfo.name != start.Name.Local {
				return UnmarshalError("expected element type <" + finfo.name + "> but have <" + start.Name.Local + ">")
			}
""", """		// Validate and assign element name.
		if finfo := tinfo.xmlname; finfo != nil {
			if want, have := finfo.name, start.Name.Local; want != "" && want != have {
				return UnmarshalError("expected element type <" + want + "> but have <" + have + ">")
			}
"""))
r("grow-helper", (D, """		n := val.Len()
		val.Grow(1)
		val.SetLen(n + 1)

		// Recur to read element into slice.
		if err := d.unmarshalAttr(val.Index(n), attr); err != nil {
			val.SetLen(n)
			return err
		}
		return nil
""", """		return appendElem(val, func(e reflect.Value) error { return d.unmarshalAttr(e, attr) })
"""), (D, """		n := v.Len()
		v.Grow(1)
		v.SetLen(n + 1)

		// Recur to read element into slice.
		if err := d.unmarshal(v.Index(n), start, depth+1); err != nil {
			v.SetLen(n)
			return err
		}
		return nil
""", """		return appendElem(v, func(e reflect.Value) error { return d.unmarshal(e, start, depth+1) })
"""), (D, """func copyValue(""", """// appendElem appends one element read by read, unless that fails.
func appendElem(s reflect.Value, read func(reflect.Value) error) error {
	n := s.Len()
	s.Grow(1)
	s.SetLen(n + 1)
	err := read(s.Index(n))
	if err != nil {
		s.SetLen(n)
	}
	return err
}

func copyValue("""))
r("depth-limit", (D, """	if depth >= maxUnmarshalDepth || runtime.GOARCH == "wasm" && depth >= maxUnmarshalDepthWasm {
		return errUnmarshalDepth
	}
""", """	limit := maxUnmarshalDepth
	if runtime.GOARCH == "wasm" {
		limit = maxUnmarshalDepthWasm
	}
	if depth >= limit {
		return errUnmarshalDepth
	}
"""))
r("kind-switch", (D, """	case reflect.Bool, reflect.Float32, reflect.Float64, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.String:
		saveData = v

	case reflect.Struct:
		typ := v.Type()
		if typ == nameType {
			v.Set(reflect.ValueOf(start.Name))
			break
		}

		sv = v
		tinfo, err = getTypeInfo(typ)
		if err != nil {
			return err
		}
""", """	case reflect.String, reflect.Bool,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64:
		saveData = v

	case reflect.Struct:
		typ := v.Type()
		if typ == nameType {
			v.Set(reflect.ValueOf(start.Name))
			break
		}

		if tinfo, err = getTypeInfo(typ); err != nil {
			return err
		}
		sv = v
"""))
r("comment-if", (D, """	switch t := saveComment; t.Kind() {
	case reflect.String:
		t.SetString(string(comment))
	case reflect.Slice:
		t.Set(reflect.ValueOf(comment))
	}

	switch t := saveXML; t.Kind() {
	case reflect.String:
		t.SetString(string(saveXMLData))
	case reflect.Slice:
		if t.Type().Elem().Kind() == reflect.Uint8 {
			t.Set(reflect.ValueOf(saveXMLData))
		}
	}
""", """	if k := saveComment.Kind(); k == reflect.String {
		saveComment.SetString(string(comment))
	} else if k == reflect.Slice {
		saveComment.Set(reflect.ValueOf(comment))
	}

	if k := saveXML.Kind(); k == reflect.String {
		saveXML.SetString(string(saveXMLData))
	} else if k == reflect.Slice && saveXML.Type().Elem().Kind() == reflect.Uint8 {
		saveXML.Set(reflect.ValueOf(saveXMLData))
	}
"""))

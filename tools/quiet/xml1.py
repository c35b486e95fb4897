X="xml/xml.go"
R={}
R["x-token-helper"]=[(X,"""		for _, a := range t1.Attr {
			if a.Name.Space == xmlnsPrefix { // namespace attribute {.Space}xmlns:{.Local}={.Value}
				if a.Value == "" {
					d.err = d.syntaxError("empty namespace without prefix")
					return nil, d.err
				}
				if a.Name.Local == "" {
					d.err = d.syntaxError("empty prefix")
					return nil, d.err
				}
				v, ok := d.ns[a.Name.Local] // Checking existence
				// Recording the level of the namespace by recording tag name
				d.pushNs(a.Name.Local, v, ok) // Pushing tag, eventual value, and existence of namespace
				d.ns[a.Name.Local] = a.Value
			}
			if a.Name.Space == "" && a.Name.Local == xmlnsPrefix { // xmlns=".Value"
				// Default namespace for non-prefixed names
				v, ok := d.ns[""]
				d.pushNs("", v, ok)
				d.ns[""] = a.Value
			}
		}
""","""		for _, a := range t1.Attr {
			if a.Name.Space == xmlnsPrefix { // namespace attribute {.Space}xmlns:{.Local}={.Value}
				if a.Value == "" {
					d.err = d.syntaxError("empty namespace without prefix")
					return nil, d.err
				}
				if a.Name.Local == "" {
					d.err = d.syntaxError("empty prefix")
					return nil, d.err
				}
				d.bindNs(a.Name.Local, a.Value)
			} else if a.Name.Space == "" && a.Name.Local == xmlnsPrefix { // xmlns=".Value"
				d.bindNs("", a.Value)
			}
		}
"""),(X,"""const (
	xmlURL  ""","""// bindNs binds prefix to url, remembering the previous binding.
func (d *Decoder) bindNs(prefix, url string) {
	old, had := d.ns[prefix]
	d.pushNs(prefix, old, had)
	d.ns[prefix] = url
}

const (
	xmlURL  """)]
R["x-token-index"]=[(X,"""		for _, a := range t1.Attr {
			if a.Name.Space == xmlnsPrefix {""","""		for i := 0; i < len(t1.Attr); i++ {
			a := t1.Attr[i]
			if a.Name.Space == xmlnsPrefix {"""),(X,"""		for i := range t1.Attr {
			d.translate(&t1.Attr[i].Name, false)
		}""","""		for i := range t1.Attr {
			attr := &t1.Attr[i]
			d.translate(&attr.Name, false)
		}""")]
R["x-token-split"]=[(X,"""	if d.nextToken != nil {
		t = d.nextToken
		d.nextToken = nil
	} else {
		if t, err = d.rawToken(); t == nil && err != nil {
			if err == io.EOF && d.stk != nil && d.stk.kind != stkEOF {
				err = d.syntaxError("unexpected EOF")
			}
			return nil, err
		}
		// We still have a token to process, so clear any
		// errors (e.g. EOF) and proceed.
		err = nil
	}""","""	if t = d.nextToken; t != nil {
		d.nextToken = nil
	} else {
		t, err = d.rawToken()
		if t == nil && err != nil {
			if err == io.EOF && d.stk != nil && d.stk.kind != stkEOF {
				return nil, d.syntaxError("unexpected EOF")
			}
			return nil, err
		}
		// We still have a token to process, so clear any
		// errors (e.g. EOF) and proceed.
		err = nil
	}""")]
R["x-token-cases"]=[(X,"""		d.pushElement(t1.Name)
		d.translate(&t1.Name, true)
		for i := range t1.Attr {
			d.translate(&t1.Attr[i].Name, false)
		}
		t = t1

	case EndElement:
		if !d.popElement(&t1) {
			return nil, d.err
		}
		t = t1
	}
	return t, err""","""		d.pushElement(t1.Name)
		for i := range t1.Attr {
			d.translate(&t1.Attr[i].Name, false)
		}
		d.translate(&t1.Name, true)
		return t1, nil

	case EndElement:
		if ok := d.popElement(&t1); !ok {
			return nil, d.err
		}
		return t1, nil
	}
	return t, nil""")]
R["x-translate"]=[(X,"""	switch {
	case n.Space == xmlnsPrefix:
		n.Space = xmlnsURL
		return
	case n.Space == "" && !isElementName:
		return
	case n.Space == xmlPrefix:
		n.Space = xmlURL
	case n.Space == "" && n.Local == xmlnsPrefix:
		return
	}
	if v, ok := d.ns[n.Space]; ok {
		n.Space = v
	} else if n.Space == "" {
		n.Space = d.DefaultSpace
	}""","""	if n.Space == xmlnsPrefix {
		n.Space = xmlnsURL
		return
	}
	if n.Space == "" && (!isElementName || n.Local == xmlnsPrefix) {
		return
	}
	if n.Space == xmlPrefix {
		n.Space = xmlURL
	}
	v, ok := d.ns[n.Space]
	switch {
	case ok:
		n.Space = v
	case n.Space == "":
		n.Space = d.DefaultSpace
	}""")]
R["x-push-helper"]=[(X,"""func (d *Decoder) push(kind int) *stack {
	s := d.free
	if s != nil {
		d.free = s.next
	} else {
		s = new(stack)
	}
	s.next = d.stk""","""// newStack takes an entry from the free list or makes one.
func (d *Decoder) newStack() *stack {
	if s := d.free; s != nil {
		d.free = s.next
		return s
	}
	return &stack{}
}

func (d *Decoder) push(kind int) *stack {
	s := d.newStack()
	s.next = d.stk"""),(X,"""	s := d.free
	if s != nil {
		d.free = s.next
	} else {
		s = new(stack)
	}
	s.kind = stkEOF""","""	s := d.newStack()
	s.kind = stkEOF""")]
R["x-pop-early"]=[(X,"""	s := d.stk
	if s != nil {
		d.stk = s.next
		s.next = d.free
		d.free = s
	}
	return s""","""	s := d.stk
	if s == nil {
		return nil
	}
	d.stk, s.next = s.next, d.free
	d.free = s
	return s""")]
R["x-pusheof-loop"]=[(X,"""	for start.next != nil && start.next.kind == stkNs {
		start = start.next
	}""","""	for {
		next := start.next
		if next == nil || next.kind != stkNs {
			break
		}
		start = next
	}""")]
R["x-popelement-if"]=[(X,"""	s := d.pop()
	name := t.Name
	switch {
	case s == nil || s.kind != stkStart:
		d.err = d.syntaxError("unexpected end element </" + name.Local + ">")
		return false
	case s.name.Local != name.Local:
		if !d.Strict {
			d.needClose = true
			d.toClose = t.Name
			t.Name = s.name
			return true
		}
		d.err = d.syntaxError("element <" + s.name.Local + "> closed by </" + name.Local + ">")
		return false
	case s.name.Space != name.Space:
		ns := name.Space
		if name.Space == "" {
			ns = `""`
		}
		d.err =""","""	s := d.pop()
	name := t.Name
	if s == nil || s.kind != stkStart {
		d.err = d.syntaxError("unexpected end element </" + name.Local + ">")
		return false
	}
	if s.name.Local != name.Local {
		if d.Strict {
			d.err = d.syntaxError("element <" + s.name.Local + "> closed by </" + name.Local + ">")
			return false
		}
		d.needClose = true
		d.toClose = t.Name
		t.Name = s.name
		return true
	}
	if s.name.Space != name.Space {
		ns := name.Space
		if ns == "" {
			ns = `""`
		}
		d.err =""")]
R["x-popelement-undo"]=[(X,"""	for d.stk != nil && d.stk.kind != stkStart && d.stk.kind != stkEOF {
		s := d.pop()
		if s.ok {
			d.ns[s.name.Local] = s.name.Space
		} else {
			delete(d.ns, s.name.Local)
		}
	}

	return true
}""","""	d.undoNs()
	return true
}

// undoNs restores the bindings recorded on top of the stack.
func (d *Decoder) undoNs() {
	for d.stk != nil && d.stk.kind == stkNs {
		s := d.pop()
		if !s.ok {
			delete(d.ns, s.name.Local)
			continue
		}
		d.ns[s.name.Local] = s.name.Space
	}
}""")]
R["x-autoclose"]=[(X,"""	for _, s := range d.AutoClose {
		if strings.EqualFold(s, d.stk.name.Local) {
			// This one should be auto closed if t doesn't close it.
			et, ok := t.(EndElement)
			if !ok || !strings.EqualFold(et.Name.Local, d.stk.name.Local) {
				return EndElement{d.stk.name}, true
			}
			break
		}
	}
	return nil, false""","""	name := d.stk.name
	for _, s := range d.AutoClose {
		if !strings.EqualFold(s, name.Local) {
			continue
		}
		// This one should be auto closed if t doesn't close it.
		if et, ok := t.(EndElement); ok && strings.EqualFold(et.Name.Local, name.Local) {
			return nil, false
		}
		return EndElement{name}, true
	}
	return nil, false""")]
R["x-intern"]=[(X,"""	if s, ok := d.nameIntern[string(b)]; ok {
		return s
	}
	s := string(b)
	if len(d.nameIntern) < maxInternEntries {
		d.nameIntern[s] = s
	}
	return s""","""	s, known := d.nameIntern[string(b)]
	if !known {
		s = string(b)
		if len(d.nameIntern) < maxInternEntries {
			d.nameIntern[s] = s
		}
	}
	return s""")]
R["x-intern-bound"]=[(X,"""	if len(d.nameIntern) < maxInternEntries {
		d.nameIntern[s] = s
	}
	return s""","""	if len(d.nameIntern) >= maxInternEntries {
		return s
	}
	d.nameIntern[s] = s
	return s""")]
R["x-newdecoder"]=[(X,"""	d := &Decoder{
		ns:       make(map[string]string),
		nextByte: -1,
		line:     1,
		Strict:   true,
	}
	d.switchToReader(r)
	return d
}""","""	d := newDecoder()
	d.switchToReader(r)
	return d
}

func newDecoder() *Decoder {
	return &Decoder{
		Strict:   true,
		line:     1,
		nextByte: -1,
		ns:       map[string]string{},
	}
}"""),(X,"""	d := &Decoder{
		ns:       make(map[string]string),
		t:        t,
		nextByte: -1,
		line:     1,
		Strict:   true,
	}
	return d""","""	d := newDecoder()
	d.t = t
	return d""")]
R["x-switchreader"]=[(X,"""	if rb, ok := r.(io.ByteReader); ok {
		d.r = rb
	} else {
		d.r = bufio.NewReader(r)
	}""","""	rb, ok := r.(io.ByteReader)
	if !ok {
		rb = bufio.NewReader(r)
	}
	d.r = rb""")]
R["x-raw-end-helper"]=[(X,"""		// </: End element
		var name Name
		if name, ok = d.nsname(); !ok {
			if d.err == nil {
				d.err = d.syntaxError("expected element name after </")
			}
			return nil, d.err
		}
		d.space()
		if b, ok = d.mustgetc(); !ok {
			return nil, d.err
		}
		if b != '>' {
			d.err = d.syntaxError("invalid characters between </" + name.Local + " and >")
			return nil, d.err
		}
		return EndElement{name}, nil

	case '?':""","""		return d.rawEnd()

	case '?':"""),(X,"""func (d *Decoder) attrval() []byte {""","""// rawEnd reads the rest of </name>.
func (d *Decoder) rawEnd() (Token, error) {
	name, ok := d.nsname()
	if !ok {
		if d.err == nil {
			d.err = d.syntaxError("expected element name after </")
		}
		return nil, d.err
	}
	d.space()
	b, ok := d.mustgetc()
	if !ok {
		return nil, d.err
	}
	if b != '>' {
		d.err = d.syntaxError("invalid characters between </" + name.Local + " and >")
		return nil, d.err
	}
	return EndElement{name}, nil
}

func (d *Decoder) attrval() []byte {""")]
R["x-raw-fail-helper"]=[(X,"""	if name, ok = d.nsname(); !ok {
		if d.err == nil {
			d.err = d.syntaxError("expected element name after <")
		}
		return nil, d.err
	}

	attr = make""","""	if name, ok = d.nsname(); !ok {
		return nil, d.orSyntax("expected element name after <")
	}

	attr = make"""),(X,"""		if a.Name, ok = d.nsname(); !ok {
			if d.err == nil {
				d.err = d.syntaxError("expected attribute name in element")
			}
			return nil, d.err
		}""","""		if a.Name, ok = d.nsname(); !ok {
			return nil, d.orSyntax("expected attribute name in element")
		}"""),(X,"""func (d *Decoder) attrval() []byte {""","""// orSyntax keeps the pending error or sets a syntax error.
func (d *Decoder) orSyntax(msg string) error {
	if d.err == nil {
		d.err = d.syntaxError(msg)
	}
	return d.err
}

func (d *Decoder) attrval() []byte {""")]
R["x-raw-attr-switch"]=[(X,"""		if b == '/' {
			empty = true
			if b, ok = d.mustgetc(); !ok {
				return nil, d.err
			}
			if b != '>' {
				d.err = d.syntaxError("expected /> in element")
				return nil, d.err
			}
			break
		}
		if b == '>' {
			break
		}
		d.ungetc(b)
""","""		if b == '>' {
			break
		}
		if b == '/' {
			if b, ok = d.mustgetc(); !ok {
				return nil, d.err
			}
			if b != '>' {
				d.err = d.syntaxError("expected /> in element")
				return nil, d.err
			}
			empty = true
			break
		}
		d.ungetc(b)
""")]
R["x-raw-attr-eq"]=[(X,"""		if b != '=' {
			if d.Strict {
				d.err = d.syntaxError("attribute name without = in element")
				return nil, d.err
			}
			a.Value = a.Name.Local
		} else {
			d.space()
			data := d.attrval()
			if data == nil {
				return nil, d.err
			}
			a.Value = string(data)
		}
		attr = append(attr, a)""","""		switch {
		case b == '=':
			d.space()
			data := d.attrval()
			if data == nil {
				return nil, d.err
			}
			a.Value = string(data)
		case d.Strict:
			d.err = d.syntaxError("attribute name without = in element")
			return nil, d.err
		default:
			a.Value = a.Name.Local
		}
		attr = append(attr, a)""")]
R["x-raw-attr-parser"]=[(X,"""		a := Attr{}
		if a.Name, ok = d.nsname(); !ok {
			if d.err == nil {
				d.err = d.syntaxError("expected attribute name in element")
			}
			return nil, d.err
		}
		d.space()
		if b, ok = d.mustgetc(); !ok {
			return nil, d.err
		}
		if b != '=' {
			if d.Strict {
				d.err = d.syntaxError("attribute name without = in element")
				return nil, d.err
			}
			a.Value = a.Name.Local
		} else {
			d.space()
			data := d.attrval()
			if data == nil {
				return nil, d.err
			}
			a.Value = string(data)
		}
		attr = append(attr, a)
	}""","""		a, ok := d.attribute()
		if !ok {
			return nil, d.err
		}
		attr = append(attr, a)
	}"""),(X,"""func (d *Decoder) attrval() []byte {""","""// attribute reads name="value".
func (d *Decoder) attribute() (a Attr, ok bool) {
	if a.Name, ok = d.nsname(); !ok {
		if d.err == nil {
			d.err = d.syntaxError("expected attribute name in element")
		}
		return a, false
	}
	d.space()
	b, ok := d.mustgetc()
	if !ok {
		return a, false
	}
	if b != '=' {
		if d.Strict {
			d.err = d.syntaxError("attribute name without = in element")
			return a, false
		}
		a.Value = a.Name.Local
		return a, true
	}
	d.space()
	data := d.attrval()
	if data == nil {
		return a, false
	}
	a.Value = string(data)
	return a, true
}

func (d *Decoder) attrval() []byte {""")]
R["x-raw-noslice"]=[(X,"""	attr = make([]Attr, 0, 8)
""","""	attr = make([]Attr, 0, 4)
""")]
R["x-raw-cdata"]=[(X,"""			for i := range 6 {
				if b, ok = d.mustgetc(); !ok {
					return nil, d.err
				}
				if b != "CDATA["[i] {
					d.err = d.syntaxError("invalid <![ sequence")
					return nil, d.err
				}
			}""","""			const intro = "CDATA["
			for i := 0; i < len(intro); i++ {
				if b, ok = d.mustgetc(); !ok {
					return nil, d.err
				}
				if intro[i] != b {
					d.err = d.syntaxError("invalid <![ sequence")
					return nil, d.err
				}
			}""")]
R["x-raw-comment-helper"]=[(X,"""			// Look for terminator.
			d.buf.Reset()
			var b0, b1 byte
			for {
				if b, ok = d.mustgetc(); !ok {
					return nil, d.err
				}
				d.buf.WriteByte(b)
				if b0 == '-' && b1 == '-' {
					if b != '>' {
						d.err = d.syntaxError(
							`invalid sequence "--" not allowed in comments`)
						return nil, d.err
					}
					break
				}
				b0, b1 = b1, b
			}
			data := d.buf.Bytes()
			data = data[0 : len(data)-3] // chop -->
			return Comment(data), nil
""","""			return d.rawComment()
"""),(X,"""func (d *Decoder) attrval() []byte {""","""func (d *Decoder) rawComment() (Token, error) {
	// Look for terminator.
	d.buf.Reset()
	var b0, b1 byte
	for {
		b, ok := d.mustgetc()
		if !ok {
			return nil, d.err
		}
		d.buf.WriteByte(b)
		if b0 == '-' && b1 == '-' {
			if b == '>' {
				break
			}
			d.err = d.syntaxError(`invalid sequence "--" not allowed in comments`)
			return nil, d.err
		}
		b0, b1 = b1, b
	}
	data := d.buf.Bytes()
	return Comment(data[:len(data)-3]), nil // chop -->
}

func (d *Decoder) attrval() []byte {""")]
R["x-raw-enc"]=[(X,"""			if enc != "" && enc != "utf-8" && enc != "UTF-8" && !strings.EqualFold(enc, "utf-8") {""","""			if enc != "" && !strings.EqualFold(enc, "utf-8") {""")]
R["x-raw-pi-split"]=[(X,"""		if target == "xml" {
			content := string(data)
			ver := procInst("version", content)
			if ver != "" && ver != "1.0" {
				d.err = fmt.Errorf("xml: unsupported version %q; only version 1.0 is supported", ver)
				return nil, d.err
			}
""","""		if target == "xml" {
			content := string(data)
			switch ver := procInst("version", content); ver {
			case "", "1.0":
			default:
				d.err = fmt.Errorf("xml: unsupported version %q; only version 1.0 is supported", ver)
				return nil, d.err
			}
""")]
R["x-attrval-set"]=[(X,"""		if 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' ||
			'0' <= b && b <= '9' || b == '_' || b == ':' || b == '-' {
			d.buf.WriteByte(b)
		} else {
			d.ungetc(b)
			break
		}""","""		if !isUnquotedByte(b) {
			d.ungetc(b)
			break
		}
		d.buf.WriteByte(b)"""),(X,"""func (d *Decoder) attrval() []byte {""","""func isUnquotedByte(b byte) bool {
	switch {
	case 'a' <= b && b <= 'z', 'A' <= b && b <= 'Z', '0' <= b && b <= '9':
		return true
	}
	return b == '_' || b == ':' || b == '-'
}

func (d *Decoder) attrval() []byte {""")]
R["x-attrval-switch"]=[(X,"""	if b == '"' || b == '\\'' {
		return d.text(int(b), false)
	}
	// Handle unquoted attribute values for strict parsers
	if d.Strict {""","""	switch b {
	case '\\'', '"':
		return d.text(int(b), false)
	}
	// Handle unquoted attribute values for strict parsers
	if d.Strict {""")]
R["x-space"]=[(X,"""		switch b {
		case ' ', '\\r', '\\n', '\\t':
		default:
			d.ungetc(b)
			return
		}
	}
}""","""		if b != ' ' && b != '\\t' && b != '\\n' && b != '\\r' {
			d.ungetc(b)
			return
		}
	}
}""")]
R["x-space2"]=[(X,"""	for {
		b, ok := d.getc()
		if !ok {
			return
		}
		switch b {
		case ' ', '\\r', '\\n', '\\t':
		default:
			d.ungetc(b)
			return
		}
	}
}""","""	b, ok := d.getc()
	for ok && isSpaceByte(b) {
		b, ok = d.getc()
	}
	if ok {
		d.ungetc(b)
	}
}

func isSpaceByte(b byte) bool {
	return b == ' ' || b == '\\r' || b == '\\n' || b == '\\t'
}""")]
R["x-getc"]=[(X,"""	if d.nextByte >= 0 {
		b = byte(d.nextByte)
		d.nextByte = -1
	} else {
		b, d.err = d.r.ReadByte()
		if d.err != nil {
			return 0, false
		}
		if d.saved != nil {
			d.saved.WriteByte(b)
		}
	}
	if b == '\\n' {
		d.line++
		d.linestart = d.offset + 1
	}
	d.offset++
	return b, true""","""	if d.nextByte < 0 {
		c, err := d.r.ReadByte()
		if err != nil {
			d.err = err
			return 0, false
		}
		if d.saved != nil {
			d.saved.WriteByte(c)
		}
		b = c
	} else {
		b = byte(d.nextByte)
		d.nextByte = -1
	}
	d.offset++
	if b == '\\n' {
		d.line++
		d.linestart = d.offset
	}
	return b, true""")]
R["x-mustgetc"]=[(X,"""	if b, ok = d.getc(); !ok {
		if d.err == io.EOF {
			d.err = d.syntaxError("unexpected EOF")
		}
	}
	return
}""","""	b, ok = d.getc()
	if !ok && d.err == io.EOF {
		d.err = d.syntaxError("unexpected EOF")
	}
	return b, ok
}""")]
R["x-ungetc"]=[(X,"""	if b == '\\n' {
		d.line--
	}
	d.nextByte = int(b)
	d.offset--""","""	d.offset--
	d.nextByte = int(b)
	if b == '\\n' {
		d.line--
	}""")]
R["x-text-nl"]=[(X,"""		if b == '\\r' {
			d.buf.WriteByte('\\n')
		} else if b1 == '\\r' && b == '\\n' {
			// Skip \\r\\n--we already wrote \\n.
		} else {
			d.buf.WriteByte(b)
		}
""","""		switch {
		case b == '\\r':
			d.buf.WriteByte('\\n')
		case b != '\\n' || b1 != '\\r':
			d.buf.WriteByte(b)
		}
""")]
R["x-text-check-helper"]=[(X,"""	data := d.buf.Bytes()
	data = data[0 : len(data)-trunc]

	// Inspect each rune for being a disallowed character.
	buf := data
	for len(buf) > 0 {
		r, size := utf8.DecodeRune(buf)
		if r == utf8.RuneError && size == 1 {
			d.err = d.syntaxError("invalid UTF-8")
			return nil
		}
		buf = buf[size:]
		if !isInCharacterRange(r) {
			d.err = d.syntaxError(fmt.Sprintf("illegal character code %U", r))
			return nil
		}
	}
""","""	data := d.buf.Bytes()
	data = data[:len(data)-trunc]
	if !d.validChars(data) {
		return nil
	}
"""),(X,"""func (d *Decoder) attrval() []byte {""","""// validChars inspects each rune for being a disallowed character.
func (d *Decoder) validChars(buf []byte) bool {
	for len(buf) > 0 {
		r, size := utf8.DecodeRune(buf)
		if r == utf8.RuneError && size == 1 {
			d.err = d.syntaxError("invalid UTF-8")
			return false
		}
		buf = buf[size:]
		if !isInCharacterRange(r) {
			d.err = d.syntaxError(fmt.Sprintf("illegal character code %U", r))
			return false
		}
	}
	return true
}

func (d *Decoder) attrval() []byte {""")]
R["x-text-eof"]=[(X,"""		if !ok {
			if cdata {
				if d.err == io.EOF {
					d.err = d.syntaxError("unexpected EOF in CDATA section")
				}
				return nil
			}
			break Input
		}
""","""		if !ok {
			if !cdata {
				break Input
			}
			if d.err == io.EOF {
				d.err = d.syntaxError("unexpected EOF in CDATA section")
			}
			return nil
		}
""")]
R["x-text-entity"]=[(X,"""						s := string(name)
						if r, ok := entity[s]; ok {
							text = string(r)
							haveText = true
						} else if d.Entity != nil {
							text, haveText = d.Entity[s]
						}""","""						s := string(name)
						r, predefined := entity[s]
						switch {
						case predefined:
							text, haveText = string(r), true
						case d.Entity != nil:
							text, haveText = d.Entity[s]
						}""")]
R["x-text-entity-helper"]=[(X,"""						s := string(name)
						if r, ok := entity[s]; ok {
							text = string(r)
							haveText = true
						} else if d.Entity != nil {
							text, haveText = d.Entity[s]
						}""","""						text, haveText = d.lookupEntity(string(name))"""),(X,"""func (d *Decoder) attrval() []byte {""","""func (d *Decoder) lookupEntity(s string) (string, bool) {
	if r, ok := entity[s]; ok {
		return string(r), true
	}
	text, ok := d.Entity[s]
	return text, ok
}

func (d *Decoder) attrval() []byte {""")]
R["x-text-hexdigit"]=[(X,"""				for '0' <= b && b <= '9' ||
					base == 16 && 'a' <= b && b <= 'f' ||
					base == 16 && 'A' <= b && b <= 'F' {""","""				for '0' <= b && b <= '9' ||
					base == 16 && ('A' <= b && b <= 'F' || 'a' <= b && b <= 'f') {""")]
R["x-text-nonstrict"]=[(X,"""			if haveText {
				d.buf.Truncate(before)
				d.buf.WriteString(text)
				b0, b1 = 0, 0
				continue Input
			}
			if !d.Strict {
				b0, b1 = 0, 0
				continue Input
			}""","""			if haveText {
				d.buf.Truncate(before)
				d.buf.WriteString(text)
			}
			if haveText || !d.Strict {
				b0, b1 = 0, 0
				continue Input
			}""")]
R["x-noop-comment"]=[(X,"""func (d *Decoder) space() {""","""func (d *Decoder) space() {
	_ = d
"""),(X,"""func (d *Decoder) text(quote int, cdata bool) []byte {""","""func (d *Decoder) text(quote int, cdata bool) []byte {
	_ = quote"""),(X,"""func (d *Decoder) rawToken() (Token, error) {""","""func (d *Decoder) rawToken() (Token, error) {
	// a comment
	_ = 0"""),(X,"func (d *Decoder) translate(n *Name, isElementName bool) {","func (d *Decoder) translate(n *Name, isElementName bool) {\n\tif false {\n\t\treturn\n\t}")]
R.update({
"x-nsname-cut2": [("xml/xml.go", """	} else if i := strings.Index(s, ":"); i < 1 || i > len(s)-2 { // Leading or trailing colon, not OK.
		name.Local = s
		return name, false
	} else {
		name.Space = s[0:i]
		name.Local = s[i+1:]
	}
	return name, true""", """	} else {
		prefix, local, _ := strings.Cut(s, ":")
		if prefix == "" || local == "" { // Leading or trailing colon, not OK.
			name.Local = s
			return name, false
		}
		name.Space = prefix
		name.Local = local
	}
	return name, true""")],
})

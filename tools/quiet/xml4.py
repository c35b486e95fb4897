# A second style of edits: closures, defers, generics, the slices and maps
# packages, named results, early exits turned inside out, state regrouped.
X='xml/xml.go';D='xml/read.go';M='xml/marshal.go';T='xml/typeinfo.go'
R={}
def r(n,*e): R["z-"+n]=list(e)
r("space-strings",(X,"""		switch b {
		case ' ', '\\r', '\\n', '\\t':
		default:
			d.ungetc(b)
			return
		}
""","""		if b == ' ' || b == '\\t' || b == '\\n' || b == '\\r' {
			continue
		}
		d.ungetc(b)
		return
"""))
r("space-for",(X,"""	for {
		b, ok := d.getc()
		if !ok {
			return
		}
		switch b {
		case ' ', '\\r', '\\n', '\\t':
		default:
			d.ungetc(b)
			return
		}
	}
""","""	for b, ok := d.getc(); ok; b, ok = d.getc() {
		if !isSpace(b) {
			d.ungetc(b)
			return
		}
	}
"""),(X,"""// Read a single byte.
// If there""","""// isSpace reports whether b is white space.
func isSpace(b byte) bool {
	switch b {
	case ' ', '\\t', '\\n', '\\r':
		return true
	default:
		return false
	}
}

// Read a single byte.
// If there"""))
r("getc-nested",(X,"""	if d.nextByte >= 0 {
		b = byte(d.nextByte)
		d.nextByte = -1
	} else {
		b, d.err = d.r.ReadByte()
		if d.err != nil {
			return 0, false
		}
		if d.saved != nil {
			d.saved.WriteByte(b)
		}
	}
	if b == '\\n' {
		d.line++
		d.linestart = d.offset + 1
	}
	d.offset++
	return b, true
""","""	if b, ok = d.nextInput(); !ok {
		return 0, false
	}
	d.offset++
	if b == '\\n' {
		d.line++
		d.linestart = d.offset
	}
	return b, true
"""),(X,"""// InputOffset returns""","""// nextInput gives the byte put back, or one from the reader.
func (d *Decoder) nextInput() (byte, bool) {
	if c := d.nextByte; c >= 0 {
		d.nextByte = -1
		return byte(c), true
	}
	c, err := d.r.ReadByte()
	d.err = err
	if err != nil {
		return 0, false
	}
	if d.saved != nil {
		d.saved.WriteByte(c)
	}
	return c, true
}

// InputOffset returns"""))
r("mustgetc-plain",(X,"""	if b, ok = d.getc(); !ok {
		if d.err == io.EOF {
			d.err = d.syntaxError("unexpected EOF")
		}
	}
	return
""","""	b, ok = d.getc()
	if ok || d.err != io.EOF {
		return b, ok
	}
	d.err = d.syntaxError("unexpected EOF")
	return b, false
"""))
r("ungetc-order",(X,"""	if b == '\\n' {
		d.line--
	}
	d.nextByte = int(b)
	d.offset--
""","""	d.offset--
	if d.nextByte = int(b); b == '\\n' {
		d.line--
	}
"""))
r("savedoffset",(X,"""	n := d.saved.Len()
	if d.nextByte >= 0 {
		n--
	}
	return n
""","""	if n := d.saved.Len(); d.nextByte < 0 {
		return n
	} else {
		return n - 1
	}
"""))
r("inputpos",(X,"""	return d.line, int(d.offset-d.linestart) + 1
""","""	line = d.line
	column = 1 + int(d.offset-d.linestart)
	return line, column
"""))
r("charrange-switch",(X,"""	return r == 0x09 ||
		r == 0x0A ||
		r == 0x0D ||
		r >= 0x20 && r <= 0xD7FF ||
		r >= 0xE000 && r <= 0xFFFD ||
		r >= 0x10000 && r <= 0x10FFFF
""","""	switch {
	case r < 0x20:
		return r == '\\t' || r == '\\n' || r == '\\r'
	case r > 0xD7FF && r < 0xE000, r == 0xFFFE, r == 0xFFFF:
		return false
	}
	return r <= 0x10FFFF
"""))
r("namebyte-lower",(X,"""	return 'A' <= c && c <= 'Z' ||
		'a' <= c && c <= 'z' ||
		'0' <= c && c <= '9' ||
		c == '_' || c == ':' || c == '.' || c == '-'
""","""	switch {
	case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
		return true
	case c >= '0' && c <= ':': // the digits and the colon
		return true
	}
	return c == '-' || c == '.' || c == '_'
"""))
r("readname-loop",(X,"""	var b byte
	if b, ok = d.mustgetc(); !ok {
		return
	}
	if b < utf8.RuneSelf && !isNameByte(b) {
		d.ungetc(b)
		return false
	}
	d.buf.WriteByte(b)

	for {
		if b, ok = d.mustgetc(); !ok {
			return
		}
		if b < utf8.RuneSelf && !isNameByte(b) {
			d.ungetc(b)
			break
		}
		d.buf.WriteByte(b)
	}
	return true
""","""	for n := 0; ; n++ {
		b, ok := d.mustgetc()
		if !ok {
			return false
		}
		if b < utf8.RuneSelf && !isNameByte(b) {
			d.ungetc(b)
			return n > 0
		}
		d.buf.WriteByte(b)
	}
"""))
r("readname-first",(X,"""	var b byte
	if b, ok = d.mustgetc(); !ok {
		return
	}
	if b < utf8.RuneSelf && !isNameByte(b) {
		d.ungetc(b)
		return false
	}
	d.buf.WriteByte(b)

	for {
		if b, ok = d.mustgetc(); !ok {
			return
		}
		if b < utf8.RuneSelf && !isNameByte(b) {
			d.ungetc(b)
			break
		}
		d.buf.WriteByte(b)
	}
	return true
""","""	more, ok := d.readNameByte()
	if !ok || !more {
		return false
	}
	for more {
		if more, ok = d.readNameByte(); !ok {
			return false
		}
	}
	return true
}

// readNameByte appends one byte of a name, if there is one.
func (d *Decoder) readNameByte() (part, ok bool) {
	b, ok := d.mustgetc()
	if !ok {
		return false, false
	}
	if b >= utf8.RuneSelf || isNameByte(b) {
		d.buf.WriteByte(b)
		return true, true
	}
	d.ungetc(b)
	return false, true
"""))
r("name-invert",(X,"""	if !isName(b) {
		d.err = d.syntaxError("invalid XML name: " + string(b))
		return "", false
	}
	return d.internBytes(b), true
""","""	if isName(b) {
		return d.internBytes(b), true
	}
	d.err = d.syntaxError("invalid XML name: " + string(b))
	return "", false
"""))
r("nsname-last",(X,"""	n := strings.Count(s, ":")
	if n == 0 { // No colons, no namespace. OK.
		name.Local = s
	} else if n > 1 { // More than one colon, not OK.
		name.Local = s
		return name, false
	} else if i := strings.Index(s, ":"); i < 1 || i > len(s)-2 { // Leading or trailing colon, not OK.
		name.Local = s
		return name, false
	} else {
		name.Space = s[0:i]
		name.Local = s[i+1:]
	}
	return name, true
""","""	switch strings.Count(s, ":") {
	case 0: // no namespace
		return Name{Local: s}, true
	case 1:
		i := strings.Index(s, ":")
		if i >= 1 && i <= len(s)-2 {
			return Name{Space: s[:i], Local: s[i+1:]}, true
		}
	}
	return Name{Local: s}, false
"""))
r("raw-kind-methods",(X,"""	case '/':
		// </: End element
		var name Name
		if name, ok = d.nsname(); !ok {
			if d.err == nil {
				d.err = d.syntaxError("expected element name after </")
			}
			return nil, d.err
		}
		d.space()
		if b, ok = d.mustgetc(); !ok {
			return nil, d.err
		}
		if b != '>' {
			d.err = d.syntaxError("invalid characters between </" + name.Local + " and >")
			return nil, d.err
		}
		return EndElement{name}, nil
""","""	case '/':
		// </: End element
		return d.rawEnd()
"""),(X,"""func (d *Decoder) attrval() []byte {""","""// rawEnd reads what follows </.
func (d *Decoder) rawEnd() (Token, error) {
	name, ok := d.nsname()
	if !ok {
		if d.err == nil {
			d.err = d.syntaxError("expected element name after </")
		}
		return nil, d.err
	}
	d.space()
	b, ok := d.mustgetc()
	switch {
	case !ok:
		return nil, d.err
	case b == '>':
		return EndElement{Name: name}, nil
	}
	d.err = d.syntaxError("invalid characters between </" + name.Local + " and >")
	return nil, d.err
}

func (d *Decoder) attrval() []byte {"""))
r("raw-fail-closure",(X,"""	b, ok := d.getc()
	if !ok {
		return nil, d.err
	}

	if b != '<' {
		// Text section.
		d.ungetc(b)
		data := d.text(-1, false)
		if data == nil {
			return nil, d.err
		}
		return CharData(data), nil
	}
""","""	chars := func(cdata bool) (Token, error) {
		if data := d.text(-1, cdata); data != nil {
			return CharData(data), nil
		}
		return nil, d.err
	}

	b, ok := d.getc()
	if !ok {
		return nil, d.err
	}

	if b != '<' {
		// Text section.
		d.ungetc(b)
		return chars(false)
	}
"""),(X,"""			// Have <![CDATA[.  Read text until ]]>.
			data := d.text(-1, true)
			if data == nil {
				return nil, d.err
			}
			return CharData(data), nil
""","""			// Have <![CDATA[.  Read text until ]]>.
			return chars(true)
"""))
r("raw-comment-window",(X,"""			var b0, b1 byte
			for {
				if b, ok = d.mustgetc(); !ok {
					return nil, d.err
				}
				d.buf.WriteByte(b)
				if b0 == '-' && b1 == '-' {
					if b != '>' {
						d.err = d.syntaxError(
							`invalid sequence "--" not allowed in comments`)
						return nil, d.err
					}
					break
				}
				b0, b1 = b1, b
			}
""","""			var dashes [2]byte
			for dashes != [2]byte{'-', '-'} {
				dashes[0] = dashes[1]
				if dashes[1], ok = d.mustgetc(); !ok {
					return nil, d.err
				}
				d.buf.WriteByte(dashes[1])
			}
			if b, ok = d.mustgetc(); !ok {
				return nil, d.err
			}
			d.buf.WriteByte(b)
			if b != '>' {
				d.err = d.syntaxError(
					`invalid sequence "--" not allowed in comments`)
				return nil, d.err
			}
"""))
r("raw-pi-trim",(X,"""		data := d.buf.Bytes()
		data = data[0 : len(data)-2] // chop ?>
""","""		data := d.buf.Bytes()[:d.buf.Len()-2] // chop ?>
"""))
r("raw-version-func",(X,"""			content := string(data)
			ver := procInst("version", content)
			if ver != "" && ver != "1.0" {
				d.err = fmt.Errorf("xml: unsupported version %q; only version 1.0 is supported", ver)
				return nil, d.err
			}
			enc := procInst("encoding", content)
			if enc != "" && enc != "utf-8" && enc != "UTF-8" && !strings.EqualFold(enc, "utf-8") {
				if d.CharsetReader == nil {
					d.err = fmt.Errorf("xml: encoding %q declared but Decoder.CharsetReader is nil", enc)
					return nil, d.err
				}
				newr, err := d.CharsetReader(enc, d.r.(io.Reader))
				if err != nil {
					d.err = fmt.Errorf("xml: opening charset %q: %w", enc, err)
					return nil, d.err
				}
				if newr == nil {
					panic("CharsetReader returned a nil Reader for charset " + enc)
				}
				d.switchToReader(newr)
			}
		}
""","""			if d.err = d.declaration(string(data)); d.err != nil {
				return nil, d.err
			}
		}
"""),(X,"""func (d *Decoder) attrval() []byte {""","""// declaration heeds the XML declaration.
func (d *Decoder) declaration(content string) error {
	if ver := procInst("version", content); ver != "" && ver != "1.0" {
		return fmt.Errorf("xml: unsupported version %q; only version 1.0 is supported", ver)
	}
	enc := procInst("encoding", content)
	switch {
	case enc == "" || enc == "utf-8" || enc == "UTF-8" || strings.EqualFold(enc, "utf-8"):
		return nil
	case d.CharsetReader == nil:
		return fmt.Errorf("xml: encoding %q declared but Decoder.CharsetReader is nil", enc)
	}
	newr, err := d.CharsetReader(enc, d.r.(io.Reader))
	if err != nil {
		return fmt.Errorf("xml: opening charset %q: %w", enc, err)
	}
	if newr == nil {
		panic("CharsetReader returned a nil Reader for charset " + enc)
	}
	d.switchToReader(newr)
	return nil
}

func (d *Decoder) attrval() []byte {"""))
r("raw-fold-only",(X,"""			if enc != "" && enc != "utf-8" && enc != "UTF-8" && !strings.EqualFold(enc, "utf-8") {""","""			if enc != "" && !strings.EqualFold(enc, "utf-8") {"""))
r("raw-cdata-const",(X,"""			for i := range 6 {
				if b, ok = d.mustgetc(); !ok {
					return nil, d.err
				}
				if b != "CDATA["[i] {
					d.err = d.syntaxError("invalid <![ sequence")
					return nil, d.err
				}
			}
""","""			const opener = "CDATA["
			for _, want := range []byte(opener) {
				if b, ok = d.mustgetc(); !ok {
					return nil, d.err
				} else if b != want {
					d.err = d.syntaxError("invalid <![ sequence")
					return nil, d.err
				}
			}
"""))
r("attrval-helper",(X,"""		if 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' ||
			'0' <= b && b <= '9' || b == '_' || b == ':' || b == '-' {
			d.buf.WriteByte(b)
		} else {
			d.ungetc(b)
			break
		}
	}
	return d.buf.Bytes()
""","""		if b == '.' || !isNameByte(b) {
			d.ungetc(b)
			return d.buf.Bytes()
		}
		d.buf.WriteByte(b)
	}
"""))
r("pushns-literal",(X,"""	s := d.push(stkNs)
	s.name.Local = local
	s.name.Space = url
	s.ok = ok
""","""	s := d.push(stkNs)
	s.name, s.ok = Name{Space: url, Local: local}, ok
"""))
r("pop-nil",(X,"""	s := d.stk
	if s != nil {
		d.stk = s.next
		s.next = d.free
		d.free = s
	}
	return s
""","""	top := d.stk
	if top == nil {
		return nil
	}
	d.stk, top.next, d.free = top.next, d.free, top
	return top
"""))
r("push-alloc",(X,"""func (d *Decoder) push(kind int) *stack {
	s := d.free
	if s != nil {
		d.free = s.next
	} else {
		s = new(stack)
	}
	s.next = d.stk
	s.kind = kind
	d.stk = s
	return s
}
""","""func (d *Decoder) push(kind int) *stack {
	s := d.node(kind, d.stk)
	d.stk = s
	return s
}

// node takes an entry from the free list, or a new one.
func (d *Decoder) node(kind int, next *stack) *stack {
	s := d.free
	if s == nil {
		return &stack{next: next, kind: kind}
	}
	d.free = s.next
	s.next, s.kind = next, kind
	return s
}
"""),(X,"""	s := d.free
	if s != nil {
		d.free = s.next
	} else {
		s = new(stack)
	}
	s.kind = stkEOF
	s.next = start.next
	start.next = s
""","""	start.next = d.node(stkEOF, start.next)
"""))
r("popeof-switch",(X,"""	if d.stk == nil || d.stk.kind != stkEOF {
		return false
	}
	d.pop()
	return true
""","""	if s := d.stk; s != nil && s.kind == stkEOF {
		d.pop()
		return true
	}
	return false
"""))
r("popelement-label",(X,"""	for d.stk != nil && d.stk.kind != stkStart && d.stk.kind != stkEOF {
		s := d.pop()
		if s.ok {
			d.ns[s.name.Local] = s.name.Space
		} else {
			delete(d.ns, s.name.Local)
		}
	}

	return true
""","""	d.restoreNs()
	return true
"""),(X,"""// If the top element on the stack is autoclosing and""","""// restoreNs undoes the translations on top of the stack.
func (d *Decoder) restoreNs() {
	for d.stk != nil {
		if d.stk.kind == stkStart || d.stk.kind == stkEOF {
			return
		}
		undo := d.pop()
		if !undo.ok {
			delete(d.ns, undo.name.Local)
			continue
		}
		d.ns[undo.name.Local] = undo.name.Space
	}
}

// If the top element on the stack is autoclosing and"""))
r("translate-if",(X,"""	switch {
	case n.Space == xmlnsPrefix:
		n.Space = xmlnsURL
		return
	case n.Space == "" && !isElementName:
		return
	case n.Space == xmlPrefix:
		n.Space = xmlURL
	case n.Space == "" && n.Local == xmlnsPrefix:
		return
	}
	if v, ok := d.ns[n.Space]; ok {
		n.Space = v
	} else if n.Space == "" {
		n.Space = d.DefaultSpace
	}
""","""	if n.Space == xmlnsPrefix {
		n.Space = xmlnsURL
		return
	}
	if n.Space == "" {
		if !isElementName || n.Local == xmlnsPrefix {
			return
		}
		uri, declared := d.ns[""]
		if !declared {
			uri = d.DefaultSpace
		}
		n.Space = uri
		return
	}
	if n.Space == xmlPrefix {
		n.Space = xmlURL
	}
	if uri, declared := d.ns[n.Space]; declared {
		n.Space = uri
	}
"""))
r("autoclose-slices",(X,"""	for _, s := range d.AutoClose {
		if strings.EqualFold(s, d.stk.name.Local) {
			// This one should be auto closed if t doesn't close it.
			et, ok := t.(EndElement)
			if !ok || !strings.EqualFold(et.Name.Local, d.stk.name.Local) {
				return EndElement{d.stk.name}, true
			}
			break
		}
	}
	return nil, false
""","""	for _, s := range d.AutoClose {
		if !strings.EqualFold(s, d.stk.name.Local) {
			continue
		}
		// This one should be auto closed if t doesn't close it.
		if et, ok := t.(EndElement); ok && strings.EqualFold(et.Name.Local, d.stk.name.Local) {
			return nil, false
		}
		return EndElement{d.stk.name}, true
	}
	return nil, false
"""))
r("token-closure-declare",(X,"""				v, ok := d.ns[a.Name.Local] // Checking existence
				// Recording the level of the namespace by recording tag name
				d.pushNs(a.Name.Local, v, ok) // Pushing tag, eventual value, and existence of namespace
				d.ns[a.Name.Local] = a.Value
			}
			if a.Name.Space == "" && a.Name.Local == xmlnsPrefix { // xmlns=".Value"
				// Default namespace for non-prefixed names
				v, ok := d.ns[""]
				d.pushNs("", v, ok)
				d.ns[""] = a.Value
			}
""","""				d.declareNs(a.Name.Local, a.Value)
			}
			if a.Name.Space == "" && a.Name.Local == xmlnsPrefix { // xmlns=".Value"
				// Default namespace for non-prefixed names
				d.declareNs("", a.Value)
			}
"""),(X,"""const (
	xmlURL      = ""","""// declareNs binds a prefix until the end of the element.
func (d *Decoder) declareNs(prefix, uri string) {
	old, had := d.ns[prefix]
	d.pushNs(prefix, old, had)
	d.ns[prefix] = uri
}

const (
	xmlURL      = """))
r("token-next",(X,"""	if d.nextToken != nil {
		t = d.nextToken
		d.nextToken = nil
	} else {
		if t, err = d.rawToken(); t == nil && err != nil {
			if err == io.EOF && d.stk != nil && d.stk.kind != stkEOF {
				err = d.syntaxError("unexpected EOF")
			}
			return nil, err
		}
		// We still have a token to process, so clear any
		// errors (e.g. EOF) and proceed.
		err = nil
	}
""","""	t, d.nextToken = d.nextToken, nil
	if t == nil {
		t, err = d.rawToken()
		if t == nil && err != nil {
			if err == io.EOF && d.stk != nil && d.stk.kind != stkEOF {
				err = d.syntaxError("unexpected EOF")
			}
			return nil, err
		}
		// We still have a token to process, so clear any
		// errors (e.g. EOF) and proceed.
		err = nil
	}
"""))
r("text-runes",(X,"""	buf := data
	for len(buf) > 0 {
		r, size := utf8.DecodeRune(buf)
		if r == utf8.RuneError && size == 1 {
			d.err = d.syntaxError("invalid UTF-8")
			return nil
		}
		buf = buf[size:]
		if !isInCharacterRange(r) {
			d.err = d.syntaxError(fmt.Sprintf("illegal character code %U", r))
			return nil
		}
	}

	return data
""","""	for i := 0; i < len(data); {
		r, size := utf8.DecodeRune(data[i:])
		if r == utf8.RuneError && size == 1 {
			d.err = d.syntaxError("invalid UTF-8")
			return nil
		}
		i += size
		if !isInCharacterRange(r) {
			d.err = d.syntaxError(fmt.Sprintf("illegal character code %U", r))
			return nil
		}
	}

	return data
"""))
r("text-nl-switch",(X,"""		if b == '\\r' {
			d.buf.WriteByte('\\n')
		} else if b1 == '\\r' && b == '\\n' {
			// Skip \\r\\n--we already wrote \\n.
		} else {
			d.buf.WriteByte(b)
		}
""","""		switch {
		case b == '\\r':
			d.buf.WriteByte('\\n')
		case b != '\\n' || b1 != '\\r': // of \\r\\n, \\n is written already
			d.buf.WriteByte(b)
		}
"""))
r("text-charref-func",(X,"""					n, err := strconv.ParseUint(s, base, 64)
					if err == nil && n <= unicode.MaxRune {
						text = string(rune(n))
						haveText = true
					}
""","""					text, haveText = charRef(s, base)
"""),(X,"""// Decide whether the given rune is in""","""// charRef is the character of a number.
func charRef(digits string, base int) (string, bool) {
	n, err := strconv.ParseUint(digits, base, 64)
	if err != nil || n > unicode.MaxRune {
		return "", false
	}
	return string(rune(n)), true
}

// Decide whether the given rune is in"""))
r("text-semicolon",(X,"""			ent := string(d.buf.Bytes()[before:])
			if ent[len(ent)-1] != ';' {
				ent += " (no semicolon)"
			}
			d.err""","""			ent := string(d.buf.Bytes()[before:])
			if !strings.HasSuffix(ent, ";") {
				ent += " (no semicolon)"
			}
			d.err"""))
r("text-goto-less",(X,"""			if haveText {
				d.buf.Truncate(before)
				d.buf.WriteString(text)
				b0, b1 = 0, 0
				continue Input
			}
			if !d.Strict {
				b0, b1 = 0, 0
				continue Input
			}
			ent""","""			if haveText || !d.Strict {
				if haveText {
					d.buf.Truncate(before)
					d.buf.WriteString(text)
				}
				b0, b1 = 0, 0
				continue Input
			}
			ent"""))
r("escape-func",(X,"""		p.WriteString(s[last : i-width])
		p.Write(esc)
		last = i
	}
	p.WriteString(s[last:])
""","""		p.WriteString(s[last : i-width])
		_, _ = p.Write(esc)
		last = i
	}
	if last == 0 {
		p.WriteString(s)
		return
	}
	p.WriteString(s[last:])
"""))
r("escape-for-range",(X,"""	var esc []byte
	last := 0
	for i := 0; i < len(s); {
		r, width := utf8.DecodeRuneInString(s[i:])
		i += width
		switch r {
		case '"':
			esc = escQuot
		case '\\'':
			esc = escApos
		case '&':
			esc = escAmp
		case '<':
			esc = escLT
		case '>':
			esc = escGT
		case '\\t':
			esc = escTab
		case '\\n':
			esc = escNL
		case '\\r':
			esc = escCR
		default:
			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
				esc = escFFFD
				break
			}
			continue
		}
		p.WriteString(s[last : i-width])
		p.Write(esc)
		last = i
	}
	p.WriteString(s[last:])
""","""	last := 0
	for i := 0; i < len(s); {
		r, width := utf8.DecodeRuneInString(s[i:])
		esc := escapeOf(r, width)
		if esc != nil {
			p.WriteString(s[last:i])
			p.Write(esc)
			last = i + width
		}
		i += width
	}
	p.WriteString(s[last:])
}

// escapeOf is what stands for r in an attribute, nil for r itself.
func escapeOf(r rune, width int) []byte {
	switch r {
	case '"':
		return escQuot
	case '\\'':
		return escApos
	case '&':
		return escAmp
	case '<':
		return escLT
	case '>':
		return escGT
	case '\\t':
		return escTab
	case '\\n':
		return escNL
	case '\\r':
		return escCR
	}
	if !isInCharacterRange(r) || r == 0xFFFD && width == 1 {
		return escFFFD
	}
	return nil
"""))
r("cdata-split",(X,"""	for {
		before, after, ok := bytes.Cut(s, cdataEnd)
		if !ok {
			break
		}
		// Found a nested CDATA directive end.
		if _, err := w.Write(before); err != nil {
			return err
		}
		if _, err := w.Write(cdataEscape); err != nil {
			return err
		}
		s = after
	}

	if _, err := w.Write(s); err != nil {
		return err
	}
""","""	for i := bytes.Index(s, cdataEnd); i >= 0; i = bytes.Index(s, cdataEnd) {
		// Found a nested CDATA directive end.
		if _, err := w.Write(s[:i]); err != nil {
			return err
		}
		if _, err := w.Write(cdataEscape); err != nil {
			return err
		}
		s = s[i+len(cdataEnd):]
	}

	if _, err := w.Write(s); err != nil {
		return err
	}
"""))
r("copytoken-order",(X,"""	switch v := t.(type) {
	case CharData:
		return v.Copy()
	case Comment:
		return v.Copy()
	case Directive:
		return v.Copy()
	case ProcInst:
		return v.Copy()
	case StartElement:
		return v.Copy()
	}
	return t
""","""	switch v := t.(type) {
	case StartElement:
		t = v.Copy()
	case ProcInst:
		t = v.Copy()
	case CharData:
		t = v.Copy()
	case Comment:
		t = v.Copy()
	case Directive:
		t = v.Copy()
	}
	return t
"""))
r("start-copy",(X,"""	attrs := make([]Attr, len(e.Attr))
	copy(attrs, e.Attr)
	e.Attr = attrs
	return e
""","""	cp := e
	cp.Attr = make([]Attr, len(e.Attr))
	copy(cp.Attr, e.Attr)
	return cp
"""))
r("chardata-append",(X,"""func (c Comment) Copy() Comment { return Comment(bytes.Clone(c)) }""","""func (c Comment) Copy() Comment {
	dup := bytes.Clone(c)
	return Comment(dup)
}"""))

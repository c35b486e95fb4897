R = {
 'x-raw-attr-eq': [('xml/xml.go', '\t\tif b != \'=\' {\n\t\t\tif d.Strict {\n\t\t\t\td.err = d.syntaxError("attribute name without = in element")\n\t\t\t\treturn nil, d.err\n\t\t\t}\n\t\t\td.ungetc(b)\n\t\t\ta.Value = a.Name.Local\n\t\t} else {\n\t\t\td.space()\n\t\t\tdata := d.attrval()\n\t\t\tif data == nil {\n\t\t\t\treturn nil, d.err\n\t\t\t}\n\t\t\ta.Value = string(data)\n\t\t}\n\t\tattr = append(attr, a)', '\t\tswitch {\n\t\tcase b == \'=\':\n\t\t\td.space()\n\t\t\tdata := d.attrval()\n\t\t\tif data == nil {\n\t\t\t\treturn nil, d.err\n\t\t\t}\n\t\t\ta.Value = string(data)\n\t\tcase d.Strict:\n\t\t\td.err = d.syntaxError("attribute name without = in element")\n\t\t\treturn nil, d.err\n\t\tdefault:\n\t\t\td.ungetc(b)\n\t\t\ta.Value = a.Name.Local\n\t\t}\n\t\tattr = append(attr, a)')],
 'x-raw-attr-parser': [('xml/xml.go', '\t\ta := Attr{}\n\t\tif a.Name, ok = d.nsname(); !ok {\n\t\t\tif d.err == nil {\n\t\t\t\td.err = d.syntaxError("expected attribute name in element")\n\t\t\t}\n\t\t\treturn nil, d.err\n\t\t}\n\t\td.space()\n\t\tif b, ok = d.mustgetc(); !ok {\n\t\t\treturn nil, d.err\n\t\t}\n\t\tif b != \'=\' {\n\t\t\tif d.Strict {\n\t\t\t\td.err = d.syntaxError("attribute name without = in element")\n\t\t\t\treturn nil, d.err\n\t\t\t}\n\t\t\td.ungetc(b)\n\t\t\ta.Value = a.Name.Local\n\t\t} else {\n\t\t\td.space()\n\t\t\tdata := d.attrval()\n\t\t\tif data == nil {\n\t\t\t\treturn nil, d.err\n\t\t\t}\n\t\t\ta.Value = string(data)\n\t\t}\n\t\tattr = append(attr, a)\n\t}', '\t\ta, ok := d.attribute()\n\t\tif !ok {\n\t\t\treturn nil, d.err\n\t\t}\n\t\tattr = append(attr, a)\n\t}'), ('xml/xml.go', 'func (d *Decoder) attrval() []byte {', '// attribute reads name="value".\nfunc (d *Decoder) attribute() (a Attr, ok bool) {\n\tif a.Name, ok = d.nsname(); !ok {\n\t\tif d.err == nil {\n\t\t\td.err = d.syntaxError("expected attribute name in element")\n\t\t}\n\t\treturn a, false\n\t}\n\td.space()\n\tb, ok := d.mustgetc()\n\tif !ok {\n\t\treturn a, false\n\t}\n\tif b != \'=\' {\n\t\tif d.Strict {\n\t\t\td.err = d.syntaxError("attribute name without = in element")\n\t\t\treturn a, false\n\t\t}\n\t\td.ungetc(b)\n\t\ta.Value = a.Name.Local\n\t\treturn a, true\n\t}\n\td.space()\n\tdata := d.attrval()\n\tif data == nil {\n\t\treturn a, false\n\t}\n\ta.Value = string(data)\n\treturn a, true\n}\n\nfunc (d *Decoder) attrval() []byte {')],
 'm-start-name-helper': [('xml/marshal.go', '\tp.writeIndent(1) // handling relative depth of a tag\n\tp.WriteByte(\'<\')\n\tif e.prefix != "" {\n\t\tvar prefixCreated bool\n\t\tif e.xmlns != "" && !spaceDefined {\n\t\t\te.prefix, prefixCreated = p.createPrefix(e.xmlns, e.prefix)\n\t\t}\n\t\tp.WriteString(e.prefix)\n\t\tp.WriteByte(\':\')\n\t\tp.WriteString(e.name)\n\t\tif prefixCreated {\n\t\t\tp.WriteByte(\' \')\n\t\t\tp.writePrefixAttr(e.prefix, e.xmlns)\n\t\t}\n\t} else if e.xmlns != "" {\n\t\tp.WriteString(e.name)\n\t\tif !spaceDefined {\n\t\t\tp.WriteString(` xmlns="`)\n\t\t\tp.EscapeString(e.xmlns)\n\t\t\tp.WriteByte(\'"\')\n\t\t\te.hasDefault, e.defaultNS = true, e.xmlns\n\t\t}\n\t} else {\n\t\tp.WriteString(e.name)\n\t}\n\n\t// Attributes\n', "\tp.writeIndent(1)\n\tp.WriteByte('<')\n\tp.writeStartName(e, spaceDefined)\n\n\t// Attributes\n"), ('xml/marshal.go', 'func (p *printer) writeEnd(', 'func (p *printer) writeStartName(e *element, spaceDefined bool) {\n\tif e.prefix == "" {\n\t\tp.WriteString(e.name)\n\t\tif e.xmlns != "" && !spaceDefined {\n\t\t\tp.WriteString(` xmlns="`)\n\t\t\tp.EscapeString(e.xmlns)\n\t\t\tp.WriteByte(\'"\')\n\t\t\te.hasDefault, e.defaultNS = true, e.xmlns\n\t\t}\n\t\treturn\n\t}\n\tcreated := false\n\tif e.xmlns != "" && !spaceDefined {\n\t\te.prefix, created = p.createPrefix(e.xmlns, e.prefix)\n\t}\n\tp.WriteString(e.prefix)\n\tp.WriteByte(\':\')\n\tp.WriteString(e.name)\n\tif created {\n\t\tp.WriteByte(\' \')\n\t\tp.writePrefixAttr(e.prefix, e.xmlns)\n\t}\n}\n\nfunc (p *printer) writeEnd(')],
 'm-start-attr-method': [('xml/marshal.go', '\tfor _, attr := range start.Attr {\n\t\tif attr.Name.Local == "" {\n\t\t\tcontinue\n\t\t}\n\t\tif attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix {\n\t\t\te.hasDefault, e.defaultNS = true, attr.Value\n\t\t}\n\t\tprefix, local := splitPrefixed(attr.Name.Local)\n\t\tp.WriteByte(\' \')\n\t\tif attr.Name.Space == xmlnsURL {\n\t\t\tp.createPrefix(attr.Value, local)\n\t\t\tp.WriteString(xmlnsPrefix)\n\t\t\tp.WriteByte(\':\')\n\t\t} else if attr.Name.Space != "" {\n\t\t\tvar prefixCreated bool\n\t\t\tprefix, prefixCreated = p.createPrefix(attr.Name.Space, prefix)\n\t\t\tif prefixCreated {\n\t\t\t\tp.writePrefixAttr(prefix, attr.Name.Space)\n\t\t\t\tp.WriteByte(\' \')\n\t\t\t}\n\t\t\tp.WriteString(prefix)\n\t\t\tp.WriteByte(\':\')\n\t\t}\n\t\tp.WriteString(local)\n\t\tp.WriteString(`="`)\n\t\tp.EscapeString(attr.Value)\n\t\tp.WriteByte(\'"\')\n\t}\n\tp.WriteByte(\'>\')\n\treturn nil\n}\n', '\tfor _, attr := range start.Attr {\n\t\tif attr.Name.Local != "" {\n\t\t\tp.writeAttr(e, attr)\n\t\t}\n\t}\n\tp.WriteByte(\'>\')\n\treturn nil\n}\n\nfunc (p *printer) writeAttr(e *element, attr Attr) {\n\tif attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix {\n\t\te.hasDefault, e.defaultNS = true, attr.Value\n\t}\n\tprefix, local := splitPrefixed(attr.Name.Local)\n\tp.WriteByte(\' \')\n\tswitch attr.Name.Space {\n\tcase "":\n\tcase xmlnsURL:\n\t\tp.createPrefix(attr.Value, local)\n\t\tp.WriteString(xmlnsPrefix)\n\t\tp.WriteByte(\':\')\n\tdefault:\n\t\tprefix, created := p.createPrefix(attr.Name.Space, prefix)\n\t\tif created {\n\t\t\tp.writePrefixAttr(prefix, attr.Name.Space)\n\t\t\tp.WriteByte(\' \')\n\t\t}\n\t\tp.WriteString(prefix)\n\t\tp.WriteByte(\':\')\n\t}\n\tp.WriteString(local)\n\tp.WriteString(`="`)\n\tp.EscapeString(attr.Value)\n\tp.WriteByte(\'"\')\n}\n')],
 'v-ws-defined': [('xml/marshal.go', '\t\tfor _, attr := range start.Attr {\n\t\t\tif attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {\n\t\t\t\tspaceDefined = true\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\t// Walk up the tree to see if a default namespace is already defined without a prefix.\n\t\tif !spaceDefined && e.prefix == "" {\n\t\t\t// The nearest declaration decides.\n\t\t\tfor i := len(p.elements) - 2; i >= 0; i-- {\n\t\t\t\tif p.elements[i].hasDefault {\n\t\t\t\t\tspaceDefined = p.elements[i].xmlns == e.xmlns && p.elements[i].defaultNS == e.xmlns\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t}\n\t\t}\n', '\t\t// Walk up the tree to see if a default namespace is already defined without a prefix.\n\t\tspaceDefined = declares(start.Attr, e.xmlns) || e.prefix == "" && p.inherits(e.xmlns)\n'), ('xml/marshal.go', 'func isEmptyValue(', '\n// inScope: the namespace is the default one, by the tag\'s own declaration.\nfunc declares(attrs []Attr, ns string) bool {\n\tfor _, attr := range attrs {\n\t\tif attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == ns {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\n// inherits: an enclosing element has the namespace without a prefix.\nfunc (p *printer) inherits(ns string) bool {\n\tfor i := len(p.elements) - 2; i >= 0; i-- {\n\t\tif o := &p.elements[i]; o.hasDefault {\n\t\t\treturn o.xmlns == ns && o.defaultNS == ns\n\t\t}\n\t}\n\treturn false\n}\n\nfunc isEmptyValue(')],
 'x-rename-elements': [('xml/marshal.go', '\tenc.p.elements = enc.p.elements[:0]', '\tenc.p.open = enc.p.open[:0]'), ('xml/marshal.go', '\telements   []element', '\topen       []element'), ('xml/marshal.go', '\tfor i := len(p.elements) - 1; i >= 0; i-- {', '\tfor i := len(p.open) - 1; i >= 0; i-- {'), ('xml/marshal.go', '\t\tprefix := p.elements[i].nsToPrefix[uri]', '\t\tprefix := p.open[i].nsToPrefix[uri]'), ('xml/marshal.go', '\t\t\tfor i++; i < len(p.elements); i++ {', '\t\t\tfor i++; i < len(p.open); i++ {'), ('xml/marshal.go', '\t\t\t\tif p.elements[i].prefixToNS[prefix] != "" {', '\t\t\t\tif p.open[i].prefixToNS[prefix] != "" {'), ('xml/marshal.go', '\tif len(p.elements) == 0 {', '\tif len(p.open) == 0 {'), ('xml/marshal.go', '\t// Need to define a new namespace prefix\n\te := &p.elements[len(p.elements)-1]', '\t// Need to define a new namespace prefix\n\te := &p.open[len(p.open)-1]'), ('xml/marshal.go', '\t\tlen(p.elements) != 0 && p.elements[len(p.elements)-1].xmlns != "" {', '\t\tlen(p.open) != 0 && p.open[len(p.open)-1].xmlns != "" {'), ('xml/marshal.go', '\tp.elements = append(p.elements, element{})', '\tp.open = append(p.open, element{})'), ('xml/marshal.go', '\tn := len(p.elements)', '\tn := len(p.open)'), ('xml/marshal.go', '\t// Make sure MarshalXML closed all its tags. p.elements[n-1] is the mark.', '\t// Make sure MarshalXML closed all its tags. p.open[n-1] is the mark.'), ('xml/marshal.go', '\tif len(p.elements) > n {', '\tif len(p.open) > n {'), ('xml/marshal.go', '\t\treturn fmt.Errorf("xml: %s.MarshalXML wrote invalid XML: <%s> not closed", receiverType(val), p.elements[len(p.elements)-1].name)', '\t\treturn fmt.Errorf("xml: %s.MarshalXML wrote invalid XML: <%s> not closed", receiverType(val), p.open[len(p.open)-1].name)'), ('xml/marshal.go', '\tp.elements = p.elements[:n-1]', '\tp.open = p.open[:n-1]'), ('xml/marshal.go', '\tp.elements = append(p.elements, newElement(start.Name))', '\tp.open = append(p.open, newElement(start.Name))'), ('xml/marshal.go', '\te := &p.elements[len(p.elements)-1]\n\n\t// Set the namespace prefix, if necessary', '\te := &p.open[len(p.open)-1]\n\n\t// Set the namespace prefix, if necessary'), ('xml/marshal.go', '\t\t\tfor i := len(p.elements) - 2; i >= 0; i-- {', '\t\t\tfor i := len(p.open) - 2; i >= 0; i-- {'), ('xml/marshal.go', '\t\t\t\tif p.elements[i].hasDefault {\n\t\t\t\t\tspaceDefined = p.elements[i].xmlns == e.xmlns && p.elements[i].defaultNS == e.xmlns', '\t\t\t\tif p.open[i].hasDefault {\n\t\t\t\t\tspaceDefined = p.open[i].xmlns == e.xmlns && p.open[i].defaultNS == e.xmlns'), ('xml/marshal.go', '\tif len(p.elements) == 0 || p.elements[len(p.elements)-1].name == "" {', '\tif len(p.open) == 0 || p.open[len(p.open)-1].name == "" {'), ('xml/marshal.go', '\te := p.elements[len(p.elements)-1]', '\te := p.open[len(p.open)-1]'), ('xml/marshal.go', '\tp.elements = p.elements[:len(p.elements)-1]', '\tp.open = p.open[:len(p.open)-1]'), ('xml/marshal.go', '\tif len(p.elements) > 0 {', '\tif len(p.open) > 0 {'), ('xml/marshal.go', '\t\treturn fmt.Errorf("unclosed tag <%s>", p.elements[len(p.elements)-1].name)', '\t\treturn fmt.Errorf("unclosed tag <%s>", p.open[len(p.open)-1].name)')],
}

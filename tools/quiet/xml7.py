# names, types and signatures of what is internal
R={
 'x-rename-needclose': [('xml/xml.go', '\tneedClose      bool', '\tmustClose      bool'), ('xml/xml.go', '\t\t\td.needClose = true', '\t\t\td.mustClose = true'), ('xml/xml.go', '\tif d.needClose {', '\tif d.mustClose {'), ('xml/xml.go', '\t\td.needClose = false', '\t\td.mustClose = false'), ('xml/xml.go', '\tif empty {\n\t\td.needClose = true', '\tif empty {\n\t\td.mustClose = true')],
 'x-rename-syntaxerr': [('xml/xml.go', '\t\t\t\terr = d.syntaxError("unexpected EOF")', '\t\t\t\terr = d.errSyntax("unexpected EOF")'), ('xml/xml.go', '\t\t\t\t\td.err = d.syntaxError("empty namespace without prefix")', '\t\t\t\t\td.err = d.errSyntax("empty namespace without prefix")'), ('xml/xml.go', '\t\t\t\t\td.err = d.syntaxError("empty prefix")', '\t\t\t\t\td.err = d.errSyntax("empty prefix")'), ('xml/xml.go', 'func (d *Decoder) syntaxError(msg string) error {', 'func (d *Decoder) errSyntax(msg string) error {'), ('xml/xml.go', '\t\td.err = d.syntaxError("unexpected end element </" + name.Local + ">")', '\t\td.err = d.errSyntax("unexpected end element </" + name.Local + ">")'), ('xml/xml.go', '\t\td.err = d.syntaxError("element <" + s.name.Local + "> closed by </" + name.Local + ">")', '\t\td.err = d.errSyntax("element <" + s.name.Local + "> closed by </" + name.Local + ">")'), ('xml/xml.go', '\t\td.err = d.syntaxError("element <" + s.name.Local + "> in namespace " + s.name.Space +', '\t\td.err = d.errSyntax("element <" + s.name.Local + "> in namespace " + s.name.Space +'), ('xml/xml.go', '\t\t\t\td.err = d.syntaxError("expected element name after </")', '\t\t\t\td.err = d.errSyntax("expected element name after </")'), ('xml/xml.go', '\t\t\td.err = d.syntaxError("invalid characters between </" + name.Local + " and >")', '\t\t\td.err = d.errSyntax("invalid characters between </" + name.Local + " and >")'), ('xml/xml.go', '\t\t\t\td.err = d.syntaxError("expected target name after <?")', '\t\t\t\td.err = d.errSyntax("expected target name after <?")'), ('xml/xml.go', '\t\t\t\td.err = d.syntaxError("invalid sequence <!- not part of <!--")', '\t\t\t\td.err = d.errSyntax("invalid sequence <!- not part of <!--")'), ('xml/xml.go', '\t\t\t\t\t\td.err = d.syntaxError(', '\t\t\t\t\t\td.err = d.errSyntax('), ('xml/xml.go', '\t\t\t\t\td.err = d.syntaxError("invalid <![ sequence")', '\t\t\t\t\td.err = d.errSyntax("invalid <![ sequence")'), ('xml/xml.go', '\t\t\td.err = d.syntaxError("expected element name after <")', '\t\t\td.err = d.errSyntax("expected element name after <")'), ('xml/xml.go', '\t\t\t\td.err = d.syntaxError("expected /> in element")', '\t\t\t\td.err = d.errSyntax("expected /> in element")'), ('xml/xml.go', '\t\t\t\td.err = d.syntaxError("expected attribute name in element")', '\t\t\t\td.err = d.errSyntax("expected attribute name in element")'), ('xml/xml.go', '\t\t\t\td.err = d.syntaxError("attribute name without = in element")', '\t\t\t\td.err = d.errSyntax("attribute name without = in element")'), ('xml/xml.go', '\t\td.err = d.syntaxError("unquoted or missing attribute value in element")', '\t\td.err = d.errSyntax("unquoted or missing attribute value in element")'), ('xml/xml.go', '\t\t\td.err = d.syntaxError("unexpected EOF")', '\t\t\td.err = d.errSyntax("unexpected EOF")'), ('xml/xml.go', '\t\t\t\t\td.err = d.syntaxError("unexpected EOF in CDATA section")', '\t\t\t\t\td.err = d.errSyntax("unexpected EOF in CDATA section")'), ('xml/xml.go', '\t\t\td.err = d.syntaxError("unescaped ]]> not in CDATA section")', '\t\t\td.err = d.errSyntax("unescaped ]]> not in CDATA section")'), ('xml/xml.go', '\t\t\t\td.err = d.syntaxError("unescaped < inside quoted string")', '\t\t\t\td.err = d.errSyntax("unescaped < inside quoted string")'), ('xml/xml.go', '\t\t\td.err = d.syntaxError("invalid character entity " + ent)', '\t\t\td.err = d.errSyntax("invalid character entity " + ent)'), ('xml/xml.go', '\t\t\td.err = d.syntaxError("invalid UTF-8")', '\t\t\td.err = d.errSyntax("invalid UTF-8")'), ('xml/xml.go', '\t\t\td.err = d.syntaxError(fmt.Sprintf("illegal character code %U", r))', '\t\t\td.err = d.errSyntax(fmt.Sprintf("illegal character code %U", r))'), ('xml/xml.go', '\t\td.err = d.syntaxError("invalid XML name: " + string(b))', '\t\td.err = d.errSyntax("invalid XML name: " + string(b))')],
 'x-rename-pushns': [('xml/xml.go', '\t\t\t\td.pushNs(a.Name.Local, v, ok) // Pushing tag, eventual value, and existence of namespace', '\t\t\t\td.saveBinding(a.Name.Local, v, ok) // Pushing tag, eventual value, and existence of namespace'), ('xml/xml.go', '\t\t\t\td.pushNs("", v, ok)', '\t\t\t\td.saveBinding("", v, ok)'), ('xml/xml.go', 'func (d *Decoder) pushNs(local string, url string, ok bool) {', 'func (d *Decoder) saveBinding(local string, url string, ok bool) {')],
 'x-rename-mustgetc': [('xml/xml.go', '\t}\n\n\tif b, ok = d.mustgetc(); !ok {', '\t}\n\n\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\t\t\td.err = d.syntaxError("expected element name after </")\n\t\t\t}\n\t\t\treturn nil, d.err\n\t\t}\n\t\td.space()\n\t\tif b, ok = d.mustgetc(); !ok {', '\t\t\t\td.err = d.syntaxError("expected element name after </")\n\t\t\t}\n\t\t\treturn nil, d.err\n\t\t}\n\t\td.space()\n\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\tvar b0 byte\n\t\tfor {\n\t\t\tif b, ok = d.mustgetc(); !ok {', '\t\tvar b0 byte\n\t\tfor {\n\t\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\t// <!: Maybe comment, maybe CDATA.\n\t\tif b, ok = d.mustgetc(); !ok {', '\t\t// <!: Maybe comment, maybe CDATA.\n\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\t\t// Probably <!-- for a comment.\n\t\t\tif b, ok = d.mustgetc(); !ok {', '\t\t\t// Probably <!-- for a comment.\n\t\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\t\tfor {\n\t\t\t\tif b, ok = d.mustgetc(); !ok {', '\t\t\tfor {\n\t\t\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\t\tfor i := range 6 {\n\t\t\t\tif b, ok = d.mustgetc(); !ok {', '\t\t\tfor i := range 6 {\n\t\t\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\tdepth := 0\n\t\tfor {\n\t\t\tif b, ok = d.mustgetc(); !ok {', '\t\tdepth := 0\n\t\tfor {\n\t\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\t\t\tfor i := 0; i < len(s); i++ {\n\t\t\t\t\tif b, ok = d.mustgetc(); !ok {', '\t\t\t\tfor i := 0; i < len(s); i++ {\n\t\t\t\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\t\t\tfor {\n\t\t\t\t\tif b, ok = d.mustgetc(); !ok {', '\t\t\t\tfor {\n\t\t\t\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\tfor {\n\t\td.space()\n\t\tif b, ok = d.mustgetc(); !ok {', '\tfor {\n\t\td.space()\n\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\t\tempty = true\n\t\t\tif b, ok = d.mustgetc(); !ok {', '\t\t\tempty = true\n\t\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\t\t\td.err = d.syntaxError("expected attribute name in element")\n\t\t\t}\n\t\t\treturn nil, d.err\n\t\t}\n\t\td.space()\n\t\tif b, ok = d.mustgetc(); !ok {', '\t\t\t\td.err = d.syntaxError("expected attribute name in element")\n\t\t\t}\n\t\t\treturn nil, d.err\n\t\t}\n\t\td.space()\n\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\tb, ok := d.mustgetc()', '\tb, ok := d.needByte()'), ('xml/xml.go', '\t\tb, ok = d.mustgetc()', '\t\tb, ok = d.needByte()'), ('xml/xml.go', 'func (d *Decoder) mustgetc() (b byte, ok bool) {', 'func (d *Decoder) needByte() (b byte, ok bool) {'), ('xml/xml.go', '\t\t\tvar haveText bool\n\t\t\tif b, ok = d.mustgetc(); !ok {', '\t\t\tvar haveText bool\n\t\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\t\t\td.buf.WriteByte(b)\n\t\t\t\tif b, ok = d.mustgetc(); !ok {', '\t\t\t\td.buf.WriteByte(b)\n\t\t\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\t\t\t\t\tbase = 16\n\t\t\t\t\td.buf.WriteByte(b)\n\t\t\t\t\tif b, ok = d.mustgetc(); !ok {', '\t\t\t\t\tbase = 16\n\t\t\t\t\td.buf.WriteByte(b)\n\t\t\t\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', "\t\t\t\t\tbase == 16 && 'A' <= b && b <= 'F' {\n\t\t\t\t\td.buf.WriteByte(b)\n\t\t\t\t\tif b, ok = d.mustgetc(); !ok {", "\t\t\t\t\tbase == 16 && 'A' <= b && b <= 'F' {\n\t\t\t\t\td.buf.WriteByte(b)\n\t\t\t\t\tif b, ok = d.needByte(); !ok {"), ('xml/xml.go', '\t\t\t\t}\n\t\t\t\tif b, ok = d.mustgetc(); !ok {', '\t\t\t\t}\n\t\t\t\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\tvar b byte\n\tif b, ok = d.mustgetc(); !ok {', '\tvar b byte\n\tif b, ok = d.needByte(); !ok {'), ('xml/xml.go', '\tfor {\n\t\tif b, ok = d.mustgetc(); !ok {', '\tfor {\n\t\tif b, ok = d.needByte(); !ok {')],
 'x-rename-elements': [('xml/marshal.go', '\tenc.p.elements = enc.p.elements[:0]', '\tenc.p.open = enc.p.open[:0]'), ('xml/marshal.go', '\telements   []element', '\topen       []element'), ('xml/marshal.go', '\tfor i := len(p.elements) - 1; i >= 0; i-- {', '\tfor i := len(p.open) - 1; i >= 0; i-- {'), ('xml/marshal.go', '\t\tprefix := p.elements[i].nsToPrefix[uri]', '\t\tprefix := p.open[i].nsToPrefix[uri]'), ('xml/marshal.go', '\t\t\tfor i++; i < len(p.elements); i++ {', '\t\t\tfor i++; i < len(p.open); i++ {'), ('xml/marshal.go', '\t\t\t\tif p.elements[i].prefixToNS[prefix] != "" {', '\t\t\t\tif p.open[i].prefixToNS[prefix] != "" {'), ('xml/marshal.go', '\tif len(p.elements) == 0 {', '\tif len(p.open) == 0 {'), ('xml/marshal.go', '\t// Need to define a new namespace prefix\n\te := &p.elements[len(p.elements)-1]', '\t// Need to define a new namespace prefix\n\te := &p.open[len(p.open)-1]'), ('xml/marshal.go', '\t\tlen(p.elements) != 0 && p.elements[len(p.elements)-1].xmlns != "" {', '\t\tlen(p.open) != 0 && p.open[len(p.open)-1].xmlns != "" {'), ('xml/marshal.go', '\tp.elements = append(p.elements, element{})', '\tp.open = append(p.open, element{})'), ('xml/marshal.go', '\tn := len(p.elements)', '\tn := len(p.open)'), ('xml/marshal.go', '\t// Make sure MarshalXML closed all its tags. p.elements[n-1] is the mark.', '\t// Make sure MarshalXML closed all its tags. p.open[n-1] is the mark.'), ('xml/marshal.go', '\tif len(p.elements) > n {', '\tif len(p.open) > n {'), ('xml/marshal.go', '\t\treturn fmt.Errorf("xml: %s.MarshalXML wrote invalid XML: <%s> not closed", receiverType(val), p.elements[len(p.elements)-1].name)', '\t\treturn fmt.Errorf("xml: %s.MarshalXML wrote invalid XML: <%s> not closed", receiverType(val), p.open[len(p.open)-1].name)'), ('xml/marshal.go', '\tp.elements = p.elements[:n-1]', '\tp.open = p.open[:n-1]'), ('xml/marshal.go', '\tp.elements = append(p.elements, newElement(start.Name))', '\tp.open = append(p.open, newElement(start.Name))'), ('xml/marshal.go', '\te := &p.elements[len(p.elements)-1]\n\n\t// Set the namespace prefix, if necessary', '\te := &p.open[len(p.open)-1]\n\n\t// Set the namespace prefix, if necessary'), ('xml/marshal.go', '\t\t\tfor i := len(p.elements) - 2; i >= 0; i-- {', '\t\t\tfor i := len(p.open) - 2; i >= 0; i-- {'), ('xml/marshal.go', '\t\t\t\tif p.elements[i].prefix == "" && p.elements[i].xmlns == e.xmlns {', '\t\t\t\tif p.open[i].prefix == "" && p.open[i].xmlns == e.xmlns {'), ('xml/marshal.go', '\tif len(p.elements) == 0 || p.elements[len(p.elements)-1].name == "" {', '\tif len(p.open) == 0 || p.open[len(p.open)-1].name == "" {'), ('xml/marshal.go', '\te := p.elements[len(p.elements)-1]', '\te := p.open[len(p.open)-1]'), ('xml/marshal.go', '\tp.elements = p.elements[:len(p.elements)-1]', '\tp.open = p.open[:len(p.open)-1]'), ('xml/marshal.go', '\tif len(p.elements) > 0 {', '\tif len(p.open) > 0 {'), ('xml/marshal.go', '\t\treturn fmt.Errorf("unclosed tag <%s>", p.elements[len(p.elements)-1].name)', '\t\treturn fmt.Errorf("unclosed tag <%s>", p.open[len(p.open)-1].name)')],
 'x-line-int64': [('xml/xml.go', '\tline           int', '\tline           int64'), ('xml/xml.go', '\treturn &SyntaxError{Msg: msg, Line: d.line}', '\treturn &SyntaxError{Msg: msg, Line: int(d.line)}'), ('xml/xml.go', '\treturn d.line, int(d.offset-d.linestart) + 1', '\treturn int(d.line), int(d.offset-d.linestart) + 1')],
 'x-seq-uint64': [('xml/marshal.go', '\tseq        int', '\tseq        uint64'), ('xml/marshal.go', '\t\t\tif id := prefix + "_" + strconv.Itoa(p.seq); e.prefixToNS[id] == "" {', '\t\t\tif id := prefix + "_" + strconv.FormatUint(p.seq, 10); e.prefixToNS[id] == "" {')],
 'x-seq-int64': [('xml/marshal.go', '\tseq        int', '\tseq        int64'), ('xml/marshal.go', '\t\t\tif id := prefix + "_" + strconv.Itoa(p.seq); e.prefixToNS[id] == "" {', '\t\t\tif id := prefix + "_" + strconv.FormatInt(p.seq, 10); e.prefixToNS[id] == "" {')],
 'x-udepth-int64': [('xml/xml.go', '\tunmarshalDepth int', '\tunmarshalDepth int64')],
 'x-pdepth-uint': [('xml/marshal.go', '\tdepth      int', '\tdepth      uint'), ('xml/marshal.go', '\t\tfor i := 0; i < p.depth; i++ {', '\t\tfor i := uint(0); i < p.depth; i++ {')],
 'x-nextbyte-int32': [('xml/xml.go', '\tnextByte       int', '\tnextByte       int32'), ('xml/xml.go', '\td.nextByte = int(b)', '\td.nextByte = int32(b)')],
 'x-stkkind': [('xml/xml.go', 'type stack struct {', 'type stkKind int; type stack struct {'), ('xml/xml.go', '\tkind int', '\tkind stkKind'), ('xml/xml.go', 'func (d *Decoder) push(kind int) *stack {', 'func (d *Decoder) push(kind stkKind) *stack {')],
 'x-pushns-order': [('xml/xml.go', '\t\t\t\td.pushNs(a.Name.Local, v, ok) // Pushing tag, eventual value, and existence of namespace', '\t\t\t\td.pushNs(v, a.Name.Local, ok) // Pushing tag, eventual value, and existence of namespace'), ('xml/xml.go', '\t\t\t\td.pushNs("", v, ok)', '\t\t\t\td.pushNs(v, "", ok)'), ('xml/xml.go', 'func (d *Decoder) pushNs(local string, url string, ok bool) {', 'func (d *Decoder) pushNs(url, local string, ok bool) {')],
 'x-copyvalue-order': [('xml/read.go', '\treturn copyValue(val, []byte(attr.Value))', '\treturn copyValue([]byte(attr.Value), val)'), ('xml/read.go', '\tif err := copyValue(saveData, data); err != nil {', '\tif err := copyValue(data, saveData); err != nil {'), ('xml/read.go', 'func copyValue(dst reflect.Value, src []byte) (err error) {', 'func copyValue(src []byte, dst reflect.Value) (err error) {')],
 'x-skip-int': [('xml/read.go', '\tvar depth int64', '\tvar depth int')],
}

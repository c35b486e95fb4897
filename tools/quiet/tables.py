X='xml/xml.go';R='xml/read.go';M='xml/marshal.go';T='xml/typeinfo.go';PD='mpd/period.go';S='mpd/scte35.go'
sw='''	switch p {
	case PTRegular:
		return "regular"
	case PTEarlyAvailable:
		return "early-available"
	case PTEarlyTerminated:
		return "early-terminated"
	}
	return "unknown"
}
'''
sc='''	switch string(es.SchemeIdUri) {
	case SCTE35SchemeIdXML, SCTE35SchemeIdXMLBin, SCTE35SchemeIdBin:
		return true
	}
	return false
}
'''
nb='''func isNameByte(c byte) bool {
	return 'A' <= c && c <= 'Z' ||
		'a' <= c && c <= 'z' ||
		'0' <= c && c <= '9' ||
		c == '_' || c == ':' || c == '.' || c == '-'
}
'''
cr='''	return r == 0x09 ||
		r == 0x0A ||
		r == 0x0D ||
		r >= 0x20 && r <= 0xD7FF ||
		r >= 0xE000 && r <= 0xFFFD ||
		r >= 0x10000 && r <= 0x10FFFF
}'''
es='''		switch r {
		case '"':
			esc = escQuot
		case '\\'':
			esc = escApos
		case '&':
			esc = escAmp
		case '<':
			esc = escLT
		case '>':
			esc = escGT
		case '\\t':
			esc = escTab
		case '\\n':
			esc = escNL
		case '\\r':
			esc = escCR
		default:
			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
				esc = escFFFD
				break
			}
			continue
		}
		p.WriteString(s[last : i-width])
'''
esn='''		if e, ok := stringEscapes[r]; ok {
			esc = e
		} else if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
			esc = escFFFD
		} else {
			continue
		}
		p.WriteString(s[last : i-width])
'''
eh='''// EscapeString writes to p the properly escaped XML equivalent
'''
px='''	switch uri {
	case xmlURL:
		// The "http://www.w3.org/XML/1998/namespace" namespace is predefined as "xml"
		// and must be referred to that way.
		return xmlPrefix
	case xmlnsURL:
		// (The "http://www.w3.org/2000/xmlns/" namespace is also predefined as "xmlns",
		// but users should not be trying to use that one directly - that's our job.)
		return xmlnsPrefix
	}
	for i := len(p.elements) - 1; i >= 0; i-- {
		prefix := p.elements[i].nsToPrefix[uri]
'''
gp='// getPrefix finds the prefix to use'
R={
'q-ptype-map':[(PD,sw,'	if s, ok := periodTypeNames[p]; ok {\n\t\treturn s\n\t}\n\treturn "unknown"\n}\n\nvar periodTypeNames = map[PeriodType]string{\n\tPTRegular:         "regular",\n\tPTEarlyAvailable:  "early-available",\n\tPTEarlyTerminated: "early-terminated",\n}\n')],
'q-ptype-array':[(PD,sw,'	if p >= 0 && int(p) < len(periodTypeNames) && periodTypeNames[p] != "" {\n\t\treturn periodTypeNames[p]\n\t}\n\treturn "unknown"\n}\n\nvar periodTypeNames = [...]string{\n\tPTRegular:         "regular",\n\tPTEarlyAvailable:  "early-available",\n\tPTEarlyTerminated: "early-terminated",\n}\n')],
'q-scte-map':[(S,sc,'	return scte35Schemes[string(es.SchemeIdUri)]\n}\n\nvar scte35Schemes = map[string]bool{\n\tSCTE35SchemeIdXML: true, SCTE35SchemeIdXMLBin: true, SCTE35SchemeIdBin: true,\n}\n')],
'q-scte-set':[(S,sc,'	_, ok := scte35Schemes[string(es.SchemeIdUri)]\n\treturn ok\n}\n\nvar scte35Schemes = map[string]struct{}{\n\tSCTE35SchemeIdXML: {}, SCTE35SchemeIdXMLBin: {}, SCTE35SchemeIdBin: {},\n}\n')],
'q-scte-loop':[(S,sc,'	for _, s := range scte35Schemes {\n\t\tif string(es.SchemeIdUri) == s {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\nvar scte35Schemes = []string{SCTE35SchemeIdXML, SCTE35SchemeIdXMLBin, SCTE35SchemeIdBin}\n')],
'q-scte-contains':[(S,sc,'	return slices.Contains(scte35Schemes, string(es.SchemeIdUri))\n}\n\nvar scte35Schemes = []string{SCTE35SchemeIdXML, SCTE35SchemeIdXMLBin, SCTE35SchemeIdBin}\n'),(S,'import (\n','import (\n\t"slices"\n')],
'q-scte-local':[(S,sc,'	for _, s := range []string{SCTE35SchemeIdXML, SCTE35SchemeIdXMLBin, SCTE35SchemeIdBin} {\n\t\tif string(es.SchemeIdUri) == s {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n')],
'q-nb-table':[(X,nb,"var nameBytes = [256]bool{\n\t"+' '.join(f"{c}: true," for c in list(range(65,91))+list(range(97,123))+list(range(48,58))+[95,58,46,45])+"\n}\n\nfunc isNameByte(c byte) bool {\n\treturn nameBytes[c]\n}\n")],
'q-nb-init':[(X,nb,"var nameBytes [256]bool\n\nfunc init() {\n\tfor c := 'a'; c <= 'z'; c++ {\n\t\tnameBytes[c] = true\n\t\tnameBytes[c-'a'+'A'] = true\n\t}\n\tfor c := '0'; c <= '9'; c++ {\n\t\tnameBytes[c] = true\n\t}\n\tfor _, c := range \"_:.-\" {\n\t\tnameBytes[c] = true\n\t}\n}\n\nfunc isNameByte(c byte) bool {\n\treturn nameBytes[c]\n}\n")],
'q-nb-indexbyte':[(X,nb,"func isNameByte(c byte) bool {\n\treturn 'A' <= c && c <= 'Z' ||\n\t\t'a' <= c && c <= 'z' ||\n\t\t'0' <= c && c <= '9' ||\n\t\tstrings.IndexByte(\"_:.-\", c) >= 0\n}\n")],
'q-cr-table':[(X,cr,"	for _, c := range charRanges {\n\t\tif r >= c[0] && r <= c[1] {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\nvar charRanges = [...][2]rune{{0x09, 0x0A}, {0x0D, 0x0D}, {0x20, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}}")],
'q-cr-struct':[(X,cr,"	for _, c := range charRanges {\n\t\tif r < c.lo {\n\t\t\treturn false\n\t\t}\n\t\tif r <= c.hi {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\nvar charRanges = []struct{ lo, hi rune }{{0x09, 0x0A}, {0x0D, 0x0D}, {0x20, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}}")],
'q-cr-unicode':[(X,cr,"	return unicode.Is(charRanges, r)\n}\n\nvar charRanges = &unicode.RangeTable{\n\tR16: []unicode.Range16{{0x09, 0x0A, 1}, {0x0D, 0x0D, 1}, {0x20, 0xD7FF, 1}, {0xE000, 0xFFFD, 1}},\n\tR32: []unicode.Range32{{0x10000, 0x10FFFF, 1}},\n}")],
'q-esc-map':[(X,es,esn),(X,eh,"var stringEscapes = map[rune][]byte{'\"': escQuot, '\\'': escApos, '&': escAmp, '<': escLT, '>': escGT, '\\t': escTab, '\\n': escNL, '\\r': escCR}\n\n"+eh)],
'q-esc-func':[(X,es,"		esc = escapeFor(r, width)\n\t\tif esc == nil {\n\t\t\tcontinue\n\t\t}\n\t\tp.WriteString(s[last : i-width])\n"),(X,eh,"func escapeFor(r rune, width int) []byte {\n\tif e, ok := stringEscapes[r]; ok {\n\t\treturn e\n\t}\n\tif !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {\n\t\treturn escFFFD\n\t}\n\treturn nil\n}\n\nvar stringEscapes = map[rune][]byte{'\"': escQuot, '\\'': escApos, '&': escAmp, '<': escLT, '>': escGT, '\\t': escTab, '\\n': escNL, '\\r': escCR}\n\n"+eh)],
'q-px-map':[(M,px,"	if prefix, ok := reservedPrefixes[uri]; ok {\n\t\treturn prefix\n\t}\n\tfor i := len(p.elements) - 1; i >= 0; i-- {\n\t\tprefix := p.elements[i].nsToPrefix[uri]\n"),(M,gp,"// reservedPrefixes are the prefixes bound by definition.\nvar reservedPrefixes = map[string]string{xmlURL: xmlPrefix, xmlnsURL: xmlnsPrefix}\n\n"+gp)],
}

R = {
 'pre-none': [('xml/marshal.go', '\tif n := len(start.Attr) + tinfo.nAttrs; cap(start.Attr) < n {\n\t\tstart.Attr = append(make([]Attr, 0, n), start.Attr...)\n\t}\n', '')],
 'pre-grow': [('xml/marshal.go', '\tif n := len(start.Attr) + tinfo.nAttrs; cap(start.Attr) < n {\n\t\tstart.Attr = append(make([]Attr, 0, n), start.Attr...)\n\t}\n', '\tstart.Attr = slices.Grow(start.Attr, tinfo.nAttrs)\n'), ('xml/marshal.go', 'import (\n', 'import (\n\t"slices"\n')],
 'pre-copy': [('xml/marshal.go', '\tif n := len(start.Attr) + tinfo.nAttrs; cap(start.Attr) < n {\n\t\tstart.Attr = append(make([]Attr, 0, n), start.Attr...)\n\t}\n', '\tif n := len(start.Attr) + tinfo.nAttrs; cap(start.Attr) < n {\n\t\tattrs := make([]Attr, len(start.Attr), n)\n\t\tcopy(attrs, start.Attr)\n\t\tstart.Attr = attrs\n\t}\n')],
 'cl-char1': [('xml/xml.go', 'CharData(bytes.Clone(c)) }', 'CharData(append([]byte(nil), c...)) }')],
 'cl-char2': [('xml/xml.go', 'CharData(bytes.Clone(c)) }', 'append(CharData{}, c...) }')],
 'cl-char3': [('xml/xml.go', 'func (c CharData) Copy() CharData { return CharData(bytes.Clone(c)) }', 'func (c CharData) Copy() CharData {\n\tn := make(CharData, len(c))\n\tcopy(n, c)\n\treturn n\n}')],
 'cl-char4': [('xml/xml.go', 'CharData(bytes.Clone(c)) }', 'slices.Clone(c) }'), ('xml/xml.go', 'import (\n', 'import (\n\t"slices"\n')],
 'cl-se1': [('xml/xml.go', '\tattrs := make([]Attr, len(e.Attr))\n\tcopy(attrs, e.Attr)\n\te.Attr = attrs\n', '\te.Attr = append([]Attr(nil), e.Attr...)\n')],
 'cl-se2': [('xml/xml.go', '\tattrs := make([]Attr, len(e.Attr))\n\tcopy(attrs, e.Attr)\n\te.Attr = attrs\n', '\te.Attr = slices.Clone(e.Attr)\n'), ('xml/xml.go', 'import (\n', 'import (\n\t"slices"\n')],
}

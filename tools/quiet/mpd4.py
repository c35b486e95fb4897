# reading and counting
R={
 'w-file-bytes': [('mpd/io.go', '\tdata, err := os.ReadFile(path)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tmpd := MPD{}\n\terr = xml.Unmarshal(data, &mpd)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tmpd.SetParents()\n\treturn &mpd, nil\n}\n\n// ReadFromString', '\tdata, err := os.ReadFile(path)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn MPDFromBytes(data)\n}\n\n// ReadFromString')],
 'w-file-open': [('mpd/io.go', '\tdata, err := os.ReadFile(path)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tmpd := MPD{}\n\terr = xml.Unmarshal(data, &mpd)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tmpd.SetParents()\n\treturn &mpd, nil\n}\n\n// ReadFromString', '\tf, err := os.Open(path)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tdefer f.Close()\n\tmpd := new(MPD)\n\tif err := xml.NewDecoder(f).Decode(mpd); err != nil {\n\t\treturn nil, err\n\t}\n\tmpd.SetParents()\n\treturn mpd, nil\n}\n\n// ReadFromString')],
 'w-helper': [('mpd/io.go', '\tmpd := MPD{}\n\terr := xml.Unmarshal(data, &mpd)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tmpd.SetParents()\n\treturn &mpd, nil\n}\n\n// WriteXML', '\treturn decodeMPD(bytes.NewReader(data))\n}\n\nfunc decodeMPD(r io.Reader) (*MPD, error) {\n\tm := &MPD{}\n\tdec := xml.NewDecoder(r)\n\tif err := dec.Decode(m); err != nil {\n\t\treturn nil, err\n\t}\n\tm.SetParents()\n\treturn m, nil\n}\n\n// WriteXML'), ('mpd/io.go', '\treturn MPDFromBytes([]byte(str))', '\treturn decodeMPD(strings.NewReader(str))'), ('mpd/io.go', 'import (\n', 'import (\n\t"bytes"\n')],
 'w-empty': [('mpd/io.go', '\tmpd := MPD{}\n\terr := xml.Unmarshal(data, &mpd)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tmpd.SetParents()\n\treturn &mpd, nil\n}\n\n// WriteXML', '\tif len(data) == 0 {\n\t\treturn nil, io.EOF\n\t}\n\tmpd, err := new(MPD), error(nil)\n\tif err = xml.Unmarshal(data, mpd); err == nil {\n\t\tmpd.SetParents()\n\t\treturn mpd, nil\n\t}\n\treturn nil, fmt.Errorf("mpd: %w", err)\n}\n\n// WriteXML'), ('mpd/io.go', 'import (\n', 'import (\n\t"fmt"\n')],
 'w-readall': [('mpd/io.go', '\tdata, err := os.ReadFile(path)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tmpd := MPD{}\n\terr = xml.Unmarshal(data, &mpd)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tmpd.SetParents()\n\treturn &mpd, nil\n}\n\n// ReadFromString', '\tf, err := os.Open(path)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tdata, err := io.ReadAll(f)\n\tf.Close()\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn ReadFromString(string(data))\n}\n\n// ReadFromString')],
 'w-cwstr': [('mpd/io.go', '// ReadFromFile reads', 'func (cw *countingWriter) WriteString(s string) (int, error) {\n\tn, err := io.WriteString(cw.w, s)\n\tcw.n += n\n\treturn n, err\n}\n\n// ReadFromFile reads')],
 'w-cwstr2': [('mpd/io.go', '// ReadFromFile reads', 'func (cw *countingWriter) WriteString(s string) (int, error) {\n\treturn cw.Write([]byte(s))\n}\n\n// ReadFromFile reads')],
}

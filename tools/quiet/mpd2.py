P="mpd/period.go"; D="mpd/duration.go"; M="mpd/mpd.go"; I="mpd/io.go"; PA="mpd/parents.go"; S="mpd/scte35.go"; PT="mpd/ptrs.go"
R={}
def r(name, *eds): R["y-"+name]=list(eds)
r("parents-closure",(PA,"""func (m *MPD) SetParents() {
	for _, p := range m.Periods {
		p.SetParent(m)
		for _, a := range p.AdaptationSets {
			a.SetParent(p)
			for _, r := range a.Representations {
				r.SetParent(a)
				for _, sr := range r.SubRepresentations {
					sr.SetParent(r)
				}
			}
		}
		for _, a := range p.EmptyAdaptationSets {
			a.SetParent(p)
			a.SetParents()
		}
	}
}
""","""func (m *MPD) SetParents() {
	link := func(p *Period) {
		p.SetParent(m)
		p.SetParents()
	}
	for i := range m.Periods {
		link(m.Periods[i])
	}
}
"""))
r("parents-concat",(PA,"""func (p *Period) SetParents() {
	for _, a := range p.AdaptationSets {
		a.SetParent(p)
		for _, r := range a.Representations {
			r.SetParent(a)
			for _, sr := range r.SubRepresentations {
				sr.SetParent(r)
			}
		}
	}
	for _, a := range p.EmptyAdaptationSets {
		a.SetParent(p)
		a.SetParents()
	}
}
""","""func (p *Period) SetParents() {
	for _, sets := range [][]*AdaptationSetType{p.AdaptationSets, p.EmptyAdaptationSets} {
		for _, a := range sets {
			a.SetParent(p)
			a.SetParents()
		}
	}
}
"""))
r("parents-linkall",(PA,"""	for _, a := range p.EmptyAdaptationSets {
		a.SetParent(p)
		a.SetParents()
	}
}

// AppendAdaptationSet""","""	linkSets(p, p.EmptyAdaptationSets)
}

func linkSets(p *Period, sets []*AdaptationSetType) {
	for n := len(sets); n > 0; n-- {
		a := sets[n-1]
		a.SetParents()
		a.SetParent(p)
	}
}

// AppendAdaptationSet"""))
r("append-insert",(PA,"""	a.Representations = append(a.Representations, r)
	r.SetParent(a)
""","""	reprs := a.Representations
	r.SetParent(a)
	a.Representations = append(reprs, r)
"""))
r("type-defer",(P,"""	nrPeriods := len(m.Periods)
	idx, err := p.GetIndex()
	if err != nil {
		return PTBad, err
	}
	isEarlyTerminated""","""	idx, err := p.GetIndex()
	if err != nil {
		return PTBad, err
	}
	nrPeriods := len(m.Periods)
	isEarlyTerminated"""))
r("type-prev",(P,"""	// No start attribute
	if idx > 0 && m.Periods[idx-1].Duration != nil {
		// Regular or Early Terminated
		if isEarlyTerminated(p, m, idx, nrPeriods) {
			return PTEarlyTerminated, nil
		}
		return PTRegularOrEarlyTerminated, nil
	}
	if m.GetType() == "dynamic" && (idx == 0 || m.Periods[idx-1].Duration == nil) {
		return PTEarlyAvailable, nil
	}
	return PTRegular, nil
""","""	// No start attribute
	var prev *Period
	if idx > 0 {
		prev = m.Periods[idx-1]
	}
	switch follows := prev != nil && prev.Duration != nil; {
	case follows && isEarlyTerminated(p, m, idx, nrPeriods):
		return PTEarlyTerminated, nil
	case follows:
		return PTRegularOrEarlyTerminated, nil
	case m.GetType() == "dynamic":
		return PTEarlyAvailable, nil
	default:
		return PTRegular, nil
	}
"""))
r("type-method",(P,"""	isEarlyTerminated := func(p *Period, m *MPD, idx, nrPeriods int) bool {
		return p.Duration != nil && (m.MinimumUpdatePeriod != nil ||
			(idx < nrPeriods-1 && m.Periods[idx+1].Start != nil))
	}
""",""),(P,"	if p.Start != nil {\n		if isEarlyTerminated(p, m, idx, nrPeriods) {","	early := p.earlyTerminated(m, idx)\n	if p.Start != nil {\n		if early {"),(P,"""		// Regular or Early Terminated
		if isEarlyTerminated(p, m, idx, nrPeriods) {""","""		// Regular or Early Terminated
		if early {"""),(P,"	nrPeriods := len(m.Periods)\n	idx, err := p.GetIndex()\n	if err != nil {\n		return PTBad, err\n	}\n","	idx, err := p.GetIndex()\n	if err != nil {\n		return PTBad, err\n	}\n"),(P,"// GetStart returns","""func (p *Period) earlyTerminated(m *MPD, idx int) bool {
	if p.Duration == nil {
		return false
	}
	if m.MinimumUpdatePeriod != nil {
		return true
	}
	next := idx + 1
	return next < len(m.Periods) && m.Periods[next].Start != nil
}

// GetStart returns"""))
r("start-guard",(P,"""	if idx > 0 {
		prev := m.Periods[idx-1]
		if prev.Duration != nil {
			prevStart, err := prev.GetStart()
			if err != nil {
				return 0, fmt.Errorf("cannot get start of previous period: %w", err)
			}
			return prevStart + *prev.Duration, nil
		}
		return 0, ErrUnknownPeriodStart
	}
	// first period of static, but no start => start = 0
	if m.GetType() == STATIC_TYPE {
		return 0, nil
	}
	return 0, ErrUnknownPeriodStart
""","""	if idx == 0 {
		if m.GetType() != STATIC_TYPE {
			return 0, ErrUnknownPeriodStart
		}
		return 0, nil
	}
	return m.Periods[idx-1].end()
}

// end is the start plus the duration of a period that has one.
func (p *Period) end() (end Duration, err error) {
	if p.Duration == nil {
		return 0, ErrUnknownPeriodStart
	}
	if end, err = p.GetStart(); err != nil {
		return 0, fmt.Errorf("cannot get start of previous period: %w", err)
	}
	end += *p.Duration
	return end, nil
"""))
r("dur-next",(P,"""	switch m.GetType() {
	case STATIC_TYPE:
		if m.MediaPresentationDuration == nil {
			return 0, ErrNoMediaPresentationDuration
		}
		end := *m.MediaPresentationDuration
		if idx < nrPeriods-1 {
			if m.Periods[idx+1].Start == nil {
				return 0, ErrUnknownPeriodDur
			}
			end = *m.Periods[idx+1].Start
		}
		if p.Start == nil {
			return 0, ErrUnknownPeriodDur
		}
		return end - *p.Start, nil
	default: // dynamic
		if p.Start == nil {
			// Early available period
			return 0, ErrUnknownPeriodDur
		}
		if idx == nrPeriods-1 {
			return 0, ErrUnknownPeriodDur
		}
		if m.Periods[idx+1].Start == nil {
			return 0, ErrUnknownPeriodDur
		}
		return *m.Periods[idx+1].Start - *p.Start, nil
	}
""","""	static := m.GetType() == STATIC_TYPE
	if static && m.MediaPresentationDuration == nil {
		return 0, ErrNoMediaPresentationDuration
	}
	var end *Duration
	switch last := idx == nrPeriods-1; {
	case !last:
		end = m.Periods[idx+1].Start
	case static:
		end = m.MediaPresentationDuration
	}
	if end == nil || p.Start == nil {
		return 0, ErrUnknownPeriodDur
	}
	return *end - *p.Start, nil
"""))
r("init-strip",(M,"""func (r *RepresentationType) replaceIdentifiers(template string) string {""","""func (r *RepresentationType) replaceIdentifiers(tmpl string) string {
	return r.substitute(tmpl)
}

func (r *RepresentationType) substitute(template string) string {"""))
r("mime-generic",(M,"""func (r *RepresentationType) GetMimeType() string {
	if r.MimeType == "" && r.parent != nil {
		return r.parent.GetMimeType()
	}
	return r.MimeType
}
""","""func (r *RepresentationType) GetMimeType() string {
	return ownOr(r.MimeType, r.parent, (*AdaptationSetType).GetMimeType)
}

// ownOr is the own value or what the parent has.
func ownOr[P any](own string, parent *P, inherited func(*P) string) string {
	if own != "" || parent == nil {
		return own
	}
	return inherited(parent)
}
"""))
r("profile-loop",(M,"""	for _, p := range strings.Split(string(l), ",") {
		if p == profile {
			return l
		}
	}

	return ListOfProfilesType(string(l) + "," + profile)
""","""	known := false
	for _, p := range strings.Split(string(l), ",") {
		known = known || p == profile
	}
	if known {
		return l
	}
	return l + "," + ListOfProfilesType(profile)
"""))
r("profile-slices",(M,"""	for _, p := range strings.Split(string(l), ",") {
		if p == profile {
			return l
		}
	}
""","""	if entries := strings.Split(string(l), ","); slices.Contains(entries, profile) {
		return l
	}
"""),(M,"import (\n","import (\n\t\"slices\"\n"))
r("profile-seq",(M,"""	for _, p := range strings.Split(string(l), ",") {
""","""	for p := range strings.SplitSeq(string(l), ",") {
"""))
r("vector-guard",(M,"""	if v == nil {
		return xml.Attr{}, nil
	}
	return xml.Attr{Name: name, Value: strings.Join(*v, " ")}, nil
""","""	var attr xml.Attr
	if v != nil {
		attr.Name = name
		attr.Value = strings.Join([]string(*v), " ")
	}
	return attr, nil
"""))
r("inf-named",(M,"""	if f == nil {
		return xml.Attr{}, nil
	}
	fl := float64(*f)
	if fl == math.Inf(+1) {
		return xml.Attr{Name: name, Value: "INF"}, nil
	}
	val := strconv.FormatFloat(fl, 'f', -1, 64)
	return xml.Attr{Name: name, Value: val}, nil
""","""	if f == nil {
		return xml.Attr{}, nil
	}
	attr := xml.Attr{Name: name}
	switch fl := float64(*f); {
	case math.IsInf(fl, 1):
		attr.Value = inf
	default:
		attr.Value = strconv.FormatFloat(fl, 'f', -1, 64)
	}
	return attr, nil
"""),(M,"""	if attr.Value == "INF" {
		*f = FloatInf64(math.Inf(+1))
		return nil
	}
""","""	if attr.Value == inf {
		*f = FloatInf64(math.Inf(1))
		return nil
	}
"""),(M,"// FloatInf64 is a float64","// inf is how an unbounded number is written.\nconst inf = \"INF\"\n\n// FloatInf64 is a float64"))
r("rep-assign",(M,"""	r := &RepresentationType{
		RepresentationBaseType: RepresentationBaseType{
			Codecs:   codec,
			MimeType: mimeType,
		},
		Id:        id,
		Bandwidth: uint32(bandwidth),
	}
	return r
""","""	r := NewRepresentation()
	r.Id, r.Bandwidth = id, uint32(bandwidth)
	r.Codecs, r.MimeType = codec, mimeType
	return r
"""))
r("audio-itoa",(M,"""	r.AudioSamplingRate = Ptr(UIntVectorType(fmt.Sprintf("%d", audioSamplingRate)))
	return r
""","""	rate := UIntVectorType(strconv.Itoa(audioSamplingRate))
	r.AudioSamplingRate = &rate
	return r
"""))
r("type-static",(M,"""func (m *MPD) GetType() string {""","""// isDynamic tells whether the MPD says so.
func (m *MPD) isDynamic() bool {
	return m.Type != nil && *m.Type == DYNAMIC_TYPE
}

func (m *MPD) GetType() string {"""))
r("segbase-len",(M,"func (r *RepresentationType) SetSegmentBase(initSize, sidxSize uint32, indexRangeExact bool) {\n","func (r *RepresentationType) SetSegmentBase(initSize, sidxSize uint32, indexRangeExact bool) {\n\tdefer func() { _ = r }()\n"))
r("read-file",(I,"""	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	mpd := MPD{}
	err = xml.Unmarshal(data, &mpd)
	if err != nil {
		return nil, err
	}
	mpd.SetParents()
	return &mpd, nil
}

// ReadFromString""","""	data, err := os.ReadFile(path)
	if err == nil {
		return MPDFromBytes(data)
	}
	return nil, err
}

// ReadFromString"""))
r("read-new",(I,"""func MPDFromBytes(data []byte) (*MPD, error) {
	mpd := MPD{}
	err := xml.Unmarshal(data, &mpd)
	if err != nil {
		return nil, err
	}
	mpd.SetParents()
	return &mpd, nil
}
""","""func MPDFromBytes(data []byte) (m *MPD, err error) {
	parsed := new(MPD)
	if err = xml.Unmarshal(data, parsed); err == nil {
		parsed.SetParents()
		m = parsed
	}
	return m, err
}
"""))
r("write-named",(I,"""	if err := enc.Encode(elem); err != nil {
		return cw.n, err
	}
	if err := enc.Flush(); err != nil {
		return cw.n, err
	}
	return cw.n, nil
""","""	err := enc.Encode(elem)
	if err == nil {
		err = enc.Flush()
	}
	return cw.n, err
"""))
r("write-header",(I,"""	if withHeader {
		if _, err := io.WriteString(cw, xml.Header); err != nil {
			return cw.n, err
		}
	}
	enc := xml""","""	if err := writeHeader(cw, withHeader); err != nil {
		return cw.n, err
	}
	enc := xml"""),(I,"// WriteXML streams","""func writeHeader(w io.Writer, want bool) error {
	if !want {
		return nil
	}
	_, err := io.WriteString(w, xml.Header)
	return err
}

// WriteXML streams"""))
r("write-bytes",(I,"		if _, err := io.WriteString(cw, xml.Header); err != nil {","		if _, err := cw.Write([]byte(xml.Header)); err != nil {"))
r("str-common",(I,"""	var sb strings.Builder
	sb.Grow(4096)
	if _, err := m.Write(&sb, indent, withHeader); err != nil {
		return "", err
	}
	return sb.String(), nil
""","""	return xmlString(m, indent, withHeader)
"""),(I,"""	var sb strings.Builder
	sb.Grow(4096)
	if _, err := p.Write(&sb, indent); err != nil {
		return "", err
	}
	return sb.String(), nil
""","""	return xmlString(p, indent, false)
"""),(I,"const RFC3339MS","""func xmlString(elem any, indent string, withHeader bool) (string, error) {
	sb := &strings.Builder{}
	_, err := WriteXML(elem, sb, indent, withHeader)
	if err != nil {
		return "", err
	}
	return sb.String(), nil
}

const RFC3339MS"""))
r("conv-shared",(I,"""	t := time.Unix(s, ns).UTC()

	return DateTime(t.Format(RFC3339MS))
""","""	return utc(s, ns)
"""),(I,"""	t := time.Unix(seconds, 0).UTC()
	return DateTime(t.Format(RFC3339MS))
""","""	return utc(seconds, 0)
"""),(I,"""	t := time.Unix(seconds, ns).UTC()
	return DateTime(t.Format(RFC3339MS))
""","""	return utc(seconds, ns)
"""),(I,"// ConvertToDateTime converts a number","""func utc(s, ns int64) DateTime {
	return DateTime(time.Unix(s, ns).UTC().Format(RFC3339MS))
}

// ConvertToDateTime converts a number"""))
r("conv-rem",(I,"	ns := (ms - 1000*seconds) * 1_000_000\n","	ns := ms % 1000 * 1_000_000\n"))
r("conv-ns",(I,"	return float64(t.Unix()) + float64(t.Nanosecond())/1_000_000_000, nil","	sec, frac := float64(t.Unix()), float64(t.Nanosecond())/1e9\n	return sec + frac, nil"))
r("scte-if",(S,"""	switch string(es.SchemeIdUri) {
	case SCTE35SchemeIdXML, SCTE35SchemeIdXMLBin, SCTE35SchemeIdBin:
		return true
	}
	return false
""","""	uri := es.SchemeIdUri
	return uri == SCTE35SchemeIdBin || uri == SCTE35SchemeIdXML || uri == SCTE35SchemeIdXMLBin
"""))
r("splice-inv",(S,"""	if e.Signal != nil && e.Signal.SpliceInfoSection != nil {
		return e.Signal.SpliceInfoSection
	}
	return e.SpliceInfoSection
""","""	info := e.SpliceInfoSection
	if sig := e.Signal; sig != nil {
		if wrapped := sig.SpliceInfoSection; wrapped != nil {
			info = wrapped
		}
	}
	return info
"""))
r("frac-while",(D,"""	for range prec {
		digit := v % 10
		print = print || digit != 0
		if print {
			w--
			buf[w] = byte(digit) + '0'
		}
		v /= 10
	}
""","""	for i := prec; i > 0; i-- {
		digit := v % 10
		v /= 10
		if digit != 0 {
			print = true
		}
		if !print {
			continue
		}
		w--
		buf[w] = '0' + byte(digit)
	}
"""))
r("parse-digitloop",(D,"""		for i < len(str) {
			b := str[i]
			if b >= '0' && b <= '9' {
				i++
				continue
			}
			if b == '.' && !sawDot {
				sawDot = true
				i++
				continue
			}
			break
		}
""","""		for ; i < len(str); i++ {
			b := str[i]
			isDot := b == '.'
			if isDot && sawDot || !isDot && (b < '0' || b > '9') {
				break
			}
			sawDot = sawDot || isDot
		}
"""))
r("parse-prefix",(D,"""	if str[0] != 'P' {
		return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
	}

	var""","""	if !strings.HasPrefix(str, "P") {
		return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
	}

	var"""),(D,"import (\n","import (\n\t\"strings\"\n"))
r("parse-rankmap",(D,"""	// rank enforces D < H < M < S ordering.
	rank := func(c byte) int {
		switch c {
		case 'D':
			return 1
		case 'H':
			return 2
		case 'M':
			return 3
		case 'S':
			return 4
		}
		return 0
	}
""","""	// rank enforces D < H < M < S ordering.
	rank := func(c byte) int {
		return strings.IndexByte("DHMS", c) + 1
	}
"""),(D,"import (\n","import (\n\t\"strings\"\n"))
r("parse-rankglobal",(D,"""	// rank enforces D < H < M < S ordering.
	rank := func(c byte) int {
		switch c {
		case 'D':
			return 1
		case 'H':
			return 2
		case 'M':
			return 3
		case 'S':
			return 4
		}
		return 0
	}
""","""	rank := func(c byte) int { return unitRank[c] }
"""),(D,"// ParseDuration parses","// unitRank enforces D < H < M < S ordering.\nvar unitRank = map[byte]int{'D': 1, 'H': 2, 'M': 3, 'S': 4}\n\n// ParseDuration parses"))
r("parse-whole",(D,"""		case 'D':
			n, err := strconv.ParseUint(numStr, 10, 64)
			if err != nil {
				return 0, newParseDurationError("error parsing Days")
			}
			if n > uint64(math.MaxInt64-total)/uint64(24*time.Hour) {
				return 0, newParseDurationError("duration is out of range")
			}
			total += time.Duration(n) * 24 * time.Hour
""","""		case 'D':
			days, err := strconv.ParseUint(numStr, 10, 64)
			if err != nil {
				return 0, newParseDurationError("error parsing Days")
			}
			const day = 24 * time.Hour
			if left := uint64(math.MaxInt64 - total); days > left/uint64(day) {
				return 0, newParseDurationError("duration is out of range")
			}
			total += day * time.Duration(days)
"""))
r("string-helper",(D,"""	w--
	buf[w] = 'T'
	w--
	buf[w] = 'P'
	if neg {
		w--
		buf[w] = '-'
	}

	return string(buf[w:])
""","""	out := "PT" + string(buf[w:])
	if neg {
		out = "-" + out
	}
	return out
"""))

P="mpd/period.go"; D="mpd/duration.go"; M="mpd/mpd.go"; I="mpd/io.go"; PA="mpd/parents.go"; S="mpd/scte35.go"; PT="mpd/ptrs.go"
R={}
def r(name, *eds): R["u-"+name]=list(eds)
r("abs-switch",(P,"""	ast, err := m.AvailabilityStartTime.ConvertToSeconds()
	if err != nil {
		return 0, err
	}
	pStart, err := p.GetStart()
	if err != nil {
		return 0, err
	}
	return ast + pStart.Seconds(), nil
""","""	ast, err := m.AvailabilityStartTime.ConvertToSeconds()
	if err == nil {
		var pStart Duration
		if pStart, err = p.GetStart(); err == nil {
			return pStart.Seconds() + ast, nil
		}
	}
	return 0, err
"""))
r("abs-defer",(P,"""func (p *Period) AbsoluteStart(m *MPD) (float64, error) {
	if m.AvailabilityStartTime == "" {
		return 0, ErrASTRequired
	}
	ast, err := m.AvailabilityStartTime.ConvertToSeconds()
	if err != nil {
		return 0, err
	}
	pStart, err := p.GetStart()
	if err != nil {
		return 0, err
	}
	return ast + pStart.Seconds(), nil
""","""func (p *Period) AbsoluteStart(m *MPD) (start float64, err error) {
	if len(m.AvailabilityStartTime) == 0 {
		err = ErrASTRequired
		return
	}
	start, err = m.AvailabilityStartTime.ConvertToSeconds()
	if err != nil {
		return 0, err
	}
	offset, err := p.GetStart()
	if err != nil {
		return 0, err
	}
	start += offset.Seconds()
	return start, nil
"""))
r("getindex-count",(P,"""	for i, period := range m.Periods {
		if period == p {
			return i, nil
		}
	}
	return -1, ErrPeriodNotFound
""","""	idx := 0
	for idx < len(m.Periods) && m.Periods[idx] != p {
		idx++
	}
	if idx == len(m.Periods) {
		return -1, ErrPeriodNotFound
	}
	return idx, nil
"""))
r("getindex-found",(P,"""	for i, period := range m.Periods {
		if period == p {
			return i, nil
		}
	}
	return -1, ErrPeriodNotFound
""","""	idx, err := -1, ErrPeriodNotFound
	for i := range m.Periods {
		if m.Periods[i] == p {
			idx, err = i, nil
			break
		}
	}
	return idx, err
"""))
r("ptype-table",(P,"""	switch p {
	case PTRegular:
		return "regular"
	case PTEarlyAvailable:
		return "early-available"
	case PTEarlyTerminated:
		return "early-terminated"
	}
	return "unknown"
""","""	names := [...]string{PTRegular: "regular", PTEarlyAvailable: "early-available", PTEarlyTerminated: "early-terminated"}
	if p > PTBad && int(p) < len(names) {
		return names[p]
	}
	return "unknown"
"""))
r("ptype-if",(P,"""	switch p {
	case PTRegular:
		return "regular"
	case PTEarlyAvailable:
		return "early-available"
	case PTEarlyTerminated:
		return "early-terminated"
	}
	return "unknown"
""","""	s := "unknown"
	if p == PTRegular {
		s = "regular"
	} else if p == PTEarlyAvailable {
		s = "early-available"
	} else if p == PTEarlyTerminated {
		s = "early-terminated"
	}
	return s
"""))
r("type-early",(P,"""	isEarlyTerminated := func(p *Period, m *MPD, idx, nrPeriods int) bool {
		return p.Duration != nil && (m.MinimumUpdatePeriod != nil ||
			(idx < nrPeriods-1 && m.Periods[idx+1].Start != nil))
	}
	if p.Start != nil {
		if isEarlyTerminated(p, m, idx, nrPeriods) {
			return PTEarlyTerminated, nil
		}
		return PTRegular, nil
	}
	// No start attribute
	if idx > 0 && m.Periods[idx-1].Duration != nil {
		// Regular or Early Terminated
		if isEarlyTerminated(p, m, idx, nrPeriods) {
			return PTEarlyTerminated, nil
		}
		return PTRegularOrEarlyTerminated, nil
	}
	if m.GetType() == "dynamic" && (idx == 0 || m.Periods[idx-1].Duration == nil) {
		return PTEarlyAvailable, nil
	}
	return PTRegular, nil
""","""	terminated := false
	if p.Duration != nil {
		switch {
		case m.MinimumUpdatePeriod != nil:
			terminated = true
		case idx+1 < nrPeriods:
			terminated = m.Periods[idx+1].Start != nil
		}
	}
	follows := idx > 0 && m.Periods[idx-1].Duration != nil
	switch {
	case (p.Start != nil || follows) && terminated:
		return PTEarlyTerminated, nil
	case p.Start != nil:
		return PTRegular, nil
	case follows:
		return PTRegularOrEarlyTerminated, nil
	case m.GetType() == DYNAMIC_TYPE:
		return PTEarlyAvailable, nil
	}
	return PTRegular, nil
"""))
r("start-iter-helper",(P,"""	if idx > 0 {
		prev := m.Periods[idx-1]
		if prev.Duration != nil {
			prevStart, err := prev.GetStart()
			if err != nil {
				return 0, fmt.Errorf("cannot get start of previous period: %w", err)
			}
			return prevStart + *prev.Duration, nil
		}
		return 0, ErrUnknownPeriodStart
	}
	// first period of static, but no start => start = 0
	if m.GetType() == STATIC_TYPE {
		return 0, nil
	}
	return 0, ErrUnknownPeriodStart
}
""","""	if idx > 0 {
		return m.Periods[idx-1].end()
	}
	// first period of static, but no start => start = 0
	if m.GetType() != STATIC_TYPE {
		return 0, ErrUnknownPeriodStart
	}
	return 0, nil
}

// end returns where the period ends, if it tells its duration.
func (p *Period) end() (Duration, error) {
	if p.Duration == nil {
		return 0, ErrUnknownPeriodStart
	}
	start, err := p.GetStart()
	if err != nil {
		return 0, fmt.Errorf("cannot get start of previous period: %w", err)
	}
	return start + *p.Duration, nil
}
"""))
r("dur-nextstart",(P,"""	switch m.GetType() {
	case STATIC_TYPE:
		if m.MediaPresentationDuration == nil {
			return 0, ErrNoMediaPresentationDuration
		}
		end := *m.MediaPresentationDuration
		if idx < nrPeriods-1 {
			if m.Periods[idx+1].Start == nil {
				return 0, ErrUnknownPeriodDur
			}
			end = *m.Periods[idx+1].Start
		}
		if p.Start == nil {
			return 0, ErrUnknownPeriodDur
		}
		return end - *p.Start, nil
	default: // dynamic
		if p.Start == nil {
			// Early available period
			return 0, ErrUnknownPeriodDur
		}
		if idx == nrPeriods-1 {
			return 0, ErrUnknownPeriodDur
		}
		if m.Periods[idx+1].Start == nil {
			return 0, ErrUnknownPeriodDur
		}
		return *m.Periods[idx+1].Start - *p.Start, nil
	}
""","""	var end *Duration
	if m.GetType() == STATIC_TYPE {
		if end = m.MediaPresentationDuration; end == nil {
			return 0, ErrNoMediaPresentationDuration
		}
	}
	if idx < nrPeriods-1 {
		end = m.Periods[idx+1].Start
	}
	if end == nil || p.Start == nil {
		return 0, ErrUnknownPeriodDur
	}
	return *end - *p.Start, nil
"""))
r("dur-methods",(P,"""		if p.Start == nil {
			return 0, ErrUnknownPeriodDur
		}
		return end - *p.Start, nil
	default: // dynamic
		if p.Start == nil {
			// Early available period
			return 0, ErrUnknownPeriodDur
		}
		if idx == nrPeriods-1 {
			return 0, ErrUnknownPeriodDur
		}
		if m.Periods[idx+1].Start == nil {
			return 0, ErrUnknownPeriodDur
		}
		return *m.Periods[idx+1].Start - *p.Start, nil
	}
""","""		return p.until(end)
	default: // dynamic
		if idx < nrPeriods-1 {
			if next := m.Periods[idx+1]; next.Start != nil {
				return p.until(*next.Start)
			}
		}
		return 0, ErrUnknownPeriodDur
	}
}

// until returns the time from the start of p to end.
func (p *Period) until(end Duration) (Duration, error) {
	if p.Start == nil {
		return 0, ErrUnknownPeriodDur
	}
	return end - *p.Start, nil
"""))
r("clone-assert",(P,"""	pc := deepcopy.MustAnything(p).(*Period)
	pc.SetParents()
	return pc
""","""	clone, _ := deepcopy.MustAnything(p).(*Period)
	clone.SetParents()
	return clone
"""),(M,"""	ac := deepcopy.MustAnything(a).(*AdaptationSetType)
	ac.SetParents()
	return ac
""","""	var c any = deepcopy.MustAnything(a)
	set := c.(*AdaptationSetType)
	set.SetParents()
	return set
"""))
r("parents-visitor",(PA,"""func (p *Period) SetParents() {
	for _, a := range p.AdaptationSets {
		a.SetParent(p)
		for _, r := range a.Representations {
			r.SetParent(a)
			for _, sr := range r.SubRepresentations {
				sr.SetParent(r)
			}
		}
	}
	for _, a := range p.EmptyAdaptationSets {
		a.SetParent(p)
		a.SetParents()
	}
}
""","""func (p *Period) SetParents() {
	p.adopt(p.AdaptationSets)
	p.adopt(p.EmptyAdaptationSets)
}

func (p *Period) adopt(sets []*AdaptationSetType) {
	for i := 0; i < len(sets); i++ {
		set := sets[i]
		set.parent = p
		for _, rep := range set.Representations {
			rep.parent = set
			rep.SetParents()
		}
	}
}
"""))
r("parents-rev",(PA,"""	for _, r := range a.Representations {
		r.SetParent(a)
		for _, sr := range r.SubRepresentations {
			sr.SetParent(r)
		}
	}
}

// AppendRepresentation""","""	for i := len(a.Representations) - 1; i >= 0; i-- {
		r := a.Representations[i]
		r.SetParents()
		r.SetParent(a)
	}
}

// AppendRepresentation"""))
r("parents-generic",(PA,"""func (r *RepresentationType) SetParents() {
	for _, sr := range r.SubRepresentations {
		sr.SetParent(r)
	}
}
""","""func (r *RepresentationType) SetParents() {
	adoptAll(r.SubRepresentations, r)
}

func adoptAll[P any, C interface{ SetParent(P) }](children []C, parent P) {
	for _, c := range children {
		c.SetParent(parent)
	}
}
"""))
r("append-first",(PA,"""	m.Periods = append(m.Periods, p)
	p.SetParent(m)
""","""	p.parent = m
	periods := append(m.Periods, p)
	m.Periods = periods
"""))
r("read-ptr",(I,"""	mpd := MPD{}
	err = xml.Unmarshal(data, &mpd)
	if err != nil {
		return nil, err
	}
	mpd.SetParents()
	return &mpd, nil
}

// ReadFromString""","""	var mpd *MPD = &MPD{}
	if err := xml.Unmarshal(data, mpd); err != nil {
		return nil, err
	}
	mpd.SetParents()
	return mpd, nil
}

// ReadFromString"""))
r("write-cond",(I,"""	if withHeader {
		if _, err := io.WriteString(cw, xml.Header); err != nil {
			return cw.n, err
		}
	}
	enc := xml.AcquireEncoder(cw)
	defer xml.ReleaseEncoder(enc)
	enc.Indent("", indent)

	if err := enc.Encode(elem); err != nil {
		return cw.n, err
	}
	if err := enc.Flush(); err != nil {
		return cw.n, err
	}
	return cw.n, nil
""","""	var err error
	if withHeader {
		_, err = io.WriteString(cw, xml.Header)
	}
	if err == nil {
		err = encodeTo(cw, elem, indent)
	}
	return cw.n, err
}

func encodeTo(w io.Writer, elem any, indent string) error {
	enc := xml.AcquireEncoder(w)
	defer xml.ReleaseEncoder(enc)
	enc.Indent("", indent)
	if err := enc.Encode(elem); err != nil {
		return err
	}
	return enc.Flush()
"""))
r("write-named-ret",(I,"""func WriteXML(elem any, w io.Writer, indent string, withHeader bool) (int, error) {
	cw := &countingWriter{w: w}
""","""func WriteXML(elem any, w io.Writer, indent string, withHeader bool) (n int, err error) {
	cw := &countingWriter{w: w}
	defer func() { n = cw.n }()
"""))
r("write-str-buf",(I,"""	var sb strings.Builder
	sb.Grow(4096)
	if _, err := m.Write(&sb, indent, withHeader); err != nil {
		return "", err
	}
	return sb.String(), nil
""","""	sb := new(strings.Builder)
	_, err := WriteXML(m, sb, indent, withHeader)
	if err != nil {
		return "", err
	}
	return sb.String(), err
"""))
r("cw-embed",(I,"""	n, err := cw.w.Write(p)
	cw.n += n
	return n, err
""","""	n, err := cw.w.Write(p)
	defer func() { cw.n += n }()
	return n, err
"""))
r("conv-divmod",(I,"""	seconds := ms / 1000
	ns := (ms - 1000*seconds) * 1_000_000
	t := time.Unix(seconds, ns).UTC()
""","""	t := time.Unix(ms/1000, ms%1000*int64(time.Millisecond)).UTC()
"""))
r("conv-fmt-helper",(I,"""	t := time.Unix(s, ns).UTC()

	return DateTime(t.Format(RFC3339MS))
}

// ConvertToDateTime converts an integral number of seconds to a UTC DateTime.
func ConvertToDateTimeS(seconds int64) DateTime {
	t := time.Unix(seconds, 0).UTC()
	return DateTime(t.Format(RFC3339MS))
}
""","""	return dateTime(time.Unix(s, ns))
}

func dateTime(t time.Time) DateTime {
	return DateTime(t.UTC().Format(RFC3339MS))
}

// ConvertToDateTime converts an integral number of seconds to a UTC DateTime.
func ConvertToDateTimeS(seconds int64) DateTime {
	return dateTime(time.Unix(seconds, 0))
}
"""))
r("conv-sec-frac",(I,"""	return float64(t.Unix()) + float64(t.Nanosecond())/1_000_000_000, nil
""","""	whole, frac := t.Unix(), t.Nanosecond()
	return float64(whole) + float64(frac)/float64(time.Second), nil
"""))
r("ptr-new",(PT,"""	d := Duration(time.Duration(seconds) * time.Second)
	return &d
""","""	return Ptr(Duration(seconds) * Duration(time.Second))
"""))
r("ptr-round",(PT,"""	us := time.Duration(math.Round(seconds * 1_000_000))
	d := Duration(us * time.Microsecond)
	return &d
""","""	us := math.Round(1e6 * seconds)
	return Ptr(Duration(time.Duration(us) * time.Microsecond))
"""))
r("gettype-def",(M,"""	if m.Type == nil {
		return STATIC_TYPE
	}
	return *m.Type
""","""	t := STATIC_TYPE
	if m.Type != nil {
		t = *m.Type
	}
	return t
"""))
r("inherit-loop",(M,"""	if r.MimeType == "" && r.parent != nil {
		return r.parent.GetMimeType()
	}
	return r.MimeType
""","""	mime := r.MimeType
	if mime != "" {
		return mime
	}
	if a := r.Parent(); a != nil {
		mime = a.MimeType
	}
	return mime
"""),(M,"""	if len(r.ContentProtections) == 0 && r.parent != nil {
		return r.parent.GetContentProtections()
	}
	return r.ContentProtections
""","""	if r.parent == nil || len(r.ContentProtections) > 0 {
		return r.ContentProtections
	}
	return r.parent.ContentProtections
"""))
r("init-shared",(M,"""	a := r.parent
	if a == nil {
		return "", ErrParentNotSet
	}
	st := r.GetSegmentTemplate()
	if st == nil {
		return "", ErrSegmentTemplateNotSet
	}
	initialization := r.replaceIdentifiers(st.Initialization)
	return initialization, nil
""","""	return r.fromTemplate(func(st *SegmentTemplateType) string { return st.Initialization })
}

// fromTemplate replaces the identifiers in what get picks from the segment template.
func (r *RepresentationType) fromTemplate(get func(*SegmentTemplateType) string) (string, error) {
	if r.parent == nil {
		return "", ErrParentNotSet
	}
	st := r.GetSegmentTemplate()
	if st == nil {
		return "", ErrSegmentTemplateNotSet
	}
	return r.replaceIdentifiers(get(st)), nil
"""),(M,"""	a := r.parent
	if a == nil {
		return "", ErrParentNotSet
	}
	st := r.GetSegmentTemplate()
	if st == nil {
		return "", ErrSegmentTemplateNotSet
	}
	media := r.replaceIdentifiers(st.Media)

	return media, nil
""","""	return r.fromTemplate(func(st *SegmentTemplateType) string { return st.Media })
"""))
r("init-enum",(M,"""	st := r.GetSegmentTemplate()
	if st == nil {
		return "", ErrSegmentTemplateNotSet
	}
	media := r.replaceIdentifiers(st.Media)

	return media, nil
""","""	if st := r.GetSegmentTemplate(); st != nil {
		return r.replaceIdentifiers(st.Media), nil
	}
	return "", ErrSegmentTemplateNotSet
"""))
r("repl-scan",(M,"""	return strings.NewReplacer(
		"$RepresentationID$", r.Id,
		"$Bandwidth$", strconv.FormatUint(uint64(r.Bandwidth), 10),
	).Replace(template)
""","""	pairs := []string{
		"$RepresentationID$", r.Id,
		"$Bandwidth$", strconv.FormatInt(int64(r.Bandwidth), 10),
	}
	replacer := strings.NewReplacer(pairs...)
	return replacer.Replace(template)
"""))
r("segbase-fields",(M,"""	r.SegmentBase = &SegmentBaseType{
		IndexRange: indexRange,
		Initialization: &URLType{
			Range: initRange,
		},
	}
	if indexRangeExact {
		r.SegmentBase.IndexRangeExact = true
	}
""","""	sb := &SegmentBaseType{IndexRangeExact: indexRangeExact}
	sb.Initialization = new(URLType)
	sb.Initialization.Range = initRange
	sb.IndexRange = indexRange
	r.SegmentBase = sb
"""))
r("segbase-strconv",(M,"""	initRange := fmt.Sprintf("0-%d", initSize-1)
	indexRange := fmt.Sprintf("%d-%d", initSize, initSize+sidxSize-1)
""","""	byteRange := func(from, to uint32) string {
		return strconv.FormatUint(uint64(from), 10) + "-" + strconv.FormatUint(uint64(to), 10)
	}
	initRange := byteRange(0, initSize-1)
	indexRange := byteRange(initSize, initSize+sidxSize-1)
"""))
r("timescale-ptr",(M,"""	if timescale == 1 {
		s.Timescale = nil
		return
	}
	s.Timescale = &timescale
""","""	s.Timescale = nil
	if timescale != 1 {
		s.Timescale = Ptr(timescale)
	}
"""))
r("vec-empty",(M,"""	if v == nil {
		return xml.Attr{}, nil
	}
	return xml.Attr{Name: name, Value: strings.Join(*v, " ")}, nil
""","""	var attr xml.Attr
	if v != nil {
		attr.Name = name
		attr.Value = strings.Join([]string(*v), " ")
	}
	return attr, nil
"""))
r("profile-cut",(M,"""	for _, p := range strings.Split(string(l), ",") {
		if p == profile {
			return l
		}
	}

	return ListOfProfilesType(string(l) + "," + profile)
""","""	present := false
	for _, p := range strings.Split(string(l), ",") {
		present = present || p == profile
	}
	if !present {
		l += "," + ListOfProfilesType(profile)
	}
	return l
"""))
r("profile-switch",(M,"""	if l == "" {
		return ListOfProfilesType(profile)
	}
	for _, p := range strings.Split(string(l), ",") {
		if p == profile {
			return l
		}
	}

	return ListOfProfilesType(string(l) + "," + profile)
""","""	added := ListOfProfilesType(profile)
	if len(l) == 0 {
		return added
	}
	list := strings.Split(string(l), ",")
	for i := range list {
		if list[i] == profile {
			return l
		}
	}
	return l + "," + added
"""))
r("mpd-local",(M,"""	return &MPD{
		Type:  &mpdType,
		XMLNs: DASH_NAMESPACE,
	}
""","""	m := &MPD{XMLNs: DASH_NAMESPACE}
	m.Type = Ptr(mpdType)
	return m
"""))
r("as-params",(M,"""	return &AdaptationSetType{
		RepresentationBaseType: RepresentationBaseType{
			MimeType:     mimeType,
			StartWithSAP: startsWithSAP,
		},
		SegmentAlignment: segmentAlignment,
		ContentType:      RFC6838ContentTypeType(contentType),
	}
""","""	a := NewAdaptationSet()
	a.ContentType = RFC6838ContentTypeType(contentType)
	a.SegmentAlignment = segmentAlignment
	a.MimeType = mimeType
	a.StartWithSAP = startsWithSAP
	return a
"""))
r("rep-video",(M,"""	r := NewRepresentationWithID(id, codec, mimeType, bandwidth)
	r.FrameRate = FrameRateType(frameRate)
	r.Width = uint32(width)
	r.Height = uint32(height)
	return r
""","""	base := RepresentationBaseType{
		Codecs:    codec,
		MimeType:  mimeType,
		FrameRate: FrameRateType(frameRate),
		Width:     uint32(width),
		Height:    uint32(height),
	}
	return &RepresentationType{Id: id, Bandwidth: uint32(bandwidth), RepresentationBaseType: base}
"""))
r("inf-math",(M,"""	fl := float64(*f)
	if fl == math.Inf(+1) {
		return xml.Attr{Name: name, Value: "INF"}, nil
	}
	val := strconv.FormatFloat(fl, 'f', -1, 64)
	return xml.Attr{Name: name, Value: val}, nil
""","""	attr := xml.Attr{Name: name, Value: "INF"}
	if fl := float64(*f); !math.IsInf(fl, 1) {
		attr.Value = strconv.FormatFloat(fl, 'f', -1, 64)
	}
	return attr, nil
"""))
r("inf-unm",(M,"""	if attr.Value == "INF" {
		*f = FloatInf64(math.Inf(+1))
		return nil
	}
	fl, err := strconv.ParseFloat(attr.Value, 64)
	if err != nil {
		return err
	}
	*f = FloatInf64(fl)
	return nil
""","""	fl := math.Inf(+1)
	if attr.Value != "INF" {
		var err error
		if fl, err = strconv.ParseFloat(attr.Value, 64); err != nil {
			return err
		}
	}
	*f = FloatInf64(fl)
	return nil
"""))
r("scte-list",(S,"""	switch string(es.SchemeIdUri) {
	case SCTE35SchemeIdXML, SCTE35SchemeIdXMLBin, SCTE35SchemeIdBin:
		return true
	}
	return false
""","""	for _, id := range []string{SCTE35SchemeIdXML, SCTE35SchemeIdXMLBin, SCTE35SchemeIdBin} {
		if string(es.SchemeIdUri) == id {
			return true
		}
	}
	return false
"""))
r("scte-map",(S,"""	switch string(es.SchemeIdUri) {
	case SCTE35SchemeIdXML, SCTE35SchemeIdXMLBin, SCTE35SchemeIdBin:
		return true
	}
	return false
}
""","""	return scte35Schemes[string(es.SchemeIdUri)]
}

var scte35Schemes = map[string]bool{
	SCTE35SchemeIdXML:    true,
	SCTE35SchemeIdXMLBin: true,
	SCTE35SchemeIdBin:    true,
}
"""))
r("splice-local",(S,"""	if e.Signal != nil && e.Signal.SpliceInfoSection != nil {
		return e.Signal.SpliceInfoSection
	}
	return e.SpliceInfoSection
""","""	section := e.SpliceInfoSection
	if s := e.Signal; s != nil {
		if s.SpliceInfoSection != nil {
			section = s.SpliceInfoSection
		}
	}
	return section
"""))
r("scte-new",(S,"""	return &BreakDurationType{
		XMLName:    canonicalSCTE35Name("BreakDuration"),
		AutoReturn: autoReturn,
		Duration:   duration,
	}
""","""	b := new(BreakDurationType)
	b.XMLName.Space, b.XMLName.Local = SCTE35Namespace, "BreakDuration"
	b.AutoReturn, b.Duration = autoReturn, duration
	return b
"""))
r("dur-marshal",(D,"""	if d == nil {
		return xml.Attr{}, nil
	}
	return xml.Attr{Name: name, Value: d.String()}, nil
""","""	if d != nil {
		return xml.Attr{Name: name, Value: d.String()}, nil
	}
	return xml.Attr{}, nil
"""))
r("dur-neg",(D,"""	u := uint64(*d)
	if u == 0 {
		return "PT0S"
	}
	neg := *d < 0
	if neg {
		u = -u
	}
""","""	if *d == 0 {
		return "PT0S"
	}
	neg := *d < 0
	u := uint64(*d)
	if neg {
		u = ^u + 1
	}
"""))
r("dur-rem",(D,"""	s := u / uint64(time.Second)
	ns := u - s*uint64(time.Second)
	ms := uint64(math.Round(float64(ns) * 1.0e-6))
	if ms == 1000 { // Rounded up to a full second
		s++
		ms = 0
	}
""","""	const second = uint64(time.Second)
	s, ns := u/second, u%second
	ms := uint64(math.Round(float64(ns) * 1.0e-6))
	if ms >= 1000 { // Rounded up to a full second
		s, ms = s+1, 0
	}
"""))
r("dur-hour",(D,"""			if u > 0 {
				w--
				buf[w] = 'H'
				w = fmtInt(buf[:w], u)
			}
		}
	}

	w--
	buf[w] = 'T'
	w--
	buf[w] = 'P'
	if neg {
		w--
		buf[w] = '-'
	}

	return string(buf[w:])
""","""			if u != 0 {
				buf[w-1] = 'H'
				w = fmtInt(buf[:w-1], u)
			}
		}
	}

	w -= 2
	copy(buf[w:], "PT")
	if neg {
		w--
		buf[w] = '-'
	}

	return string(buf[w:])
"""))
r("dur-frac-if",(D,"""		digit := v % 10
		print = print || digit != 0
		if print {
			w--
			buf[w] = byte(digit) + '0'
		}
		v /= 10
""","""		digit := byte(v % 10)
		v /= 10
		if digit != 0 {
			print = true
		}
		if !print {
			continue
		}
		w--
		buf[w] = '0' + digit
"""))
r("dur-int-do",(D,"""	w := len(buf)
	if v == 0 {
		w--
		buf[w] = '0'
	} else {
		for v > 0 {
			w--
			buf[w] = byte(v%10) + '0'
			v /= 10
		}
	}
	return w
}
""","""	w := len(buf)
	for {
		w--
		buf[w] = byte(v%10) + '0'
		v /= 10
		if v == 0 {
			return w
		}
	}
}
"""))
r("parse-units",(D,"""		case 'D':
			n, err := strconv.ParseUint(numStr, 10, 64)
			if err != nil {
				return 0, newParseDurationError("error parsing Days")
			}
			if n > uint64(math.MaxInt64-total)/uint64(24*time.Hour) {
				return 0, newParseDurationError("duration is out of range")
			}
			total += time.Duration(n) * 24 * time.Hour
""","""		case 'D':
			n, err := strconv.ParseUint(numStr, 10, 64)
			if err != nil {
				return 0, newParseDurationError("error parsing Days")
			}
			const day = 24 * time.Hour
			if left := uint64(math.MaxInt64 - total); n > left/uint64(day) {
				return 0, newParseDurationError("duration is out of range")
			}
			total += day * time.Duration(n)
"""))
r("parse-badformat",(D,"""		if rank(unit) == 0 {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}
		if rank(unit) <= rank(lastUnit) {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}
		if (unit != 'D') != afterT {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}
		if sawDot && unit != 'S' {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}
		lastUnit = unit
		seenAny = true
""","""		order := rank(unit)
		if order == 0 || order <= rank(lastUnit) || afterT == (unit == 'D') || sawDot && order != 4 {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}
		seenAny, lastUnit = true, unit
"""))
r("parse-rankvar",(D,"""		lastUnit byte
	)
""","""		lastRank int
	)
"""),(D,"""		if rank(unit) <= rank(lastUnit) {
""","""		if rank(unit) <= lastRank {
"""),(D,"""		lastUnit = unit
""","""		lastRank = rank(unit)
"""),(D,"""	if afterT && rank(lastUnit) <= rank('D') {
""","""	if afterT && lastRank < 2 {
"""))
r("parse-for",(D,"""		start := i
		sawDot := false
		for i < len(str) {
			b := str[i]
			if b >= '0' && b <= '9' {
				i++
				continue
			}
			if b == '.' && !sawDot {
				sawDot = true
				i++
				continue
			}
			break
		}
		if i == start {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}
		if i == len(str) {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}
""","""		start := i
		sawDot := false
		for ; i < len(str); i++ {
			b := str[i]
			if b == '.' && !sawDot {
				sawDot = true
			} else if b < '0' || '9' < b {
				break
			}
		}
		if i == start || i == len(str) {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}
"""))
r("parse-err-ctor",(D,"""func newParseDurationError(msg string) ParseDurationError {
	return ParseDurationError{msg: msg}
}
""","""func newParseDurationError(msg string) (e ParseDurationError) {
	e.msg = msg
	return
}
"""))
r("parse-sec",(D,"""			if f*float64(time.Second) >= float64(math.MaxInt64-total) {
				return 0, newParseDurationError("duration is out of range")
			}
			total += time.Duration(math.Round(f * float64(time.Second)))
""","""			f *= float64(time.Second)
			if f >= float64(math.MaxInt64-total) {
				return 0, newParseDurationError("duration is out of range")
			}
			total += time.Duration(math.Round(f))
"""))
r("unm-dur",(D,"""	dur, err := ParseDuration(attr.Value)
	if err != nil {
		return err
	}
	*d = Duration(dur)
	return nil
""","""	dur, err := ParseDuration(attr.Value)
	if err == nil {
		*d = Duration(dur)
	}
	return err
"""))
r("dur-order",(D,"""	w--
	buf[w] = 'T'
	w--
	buf[w] = 'P'
	if neg {""","""	buf[w-2] = 'P'
	buf[w-1] = 'T'
	w -= 2
	if neg {"""))

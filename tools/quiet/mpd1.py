P="mpd/period.go"; D="mpd/duration.go"; M="mpd/mpd.go"; I="mpd/io.go"; PA="mpd/parents.go"; S="mpd/scte35.go"
R={}
R["getindex-indexed"]=[(P,"""	for i, period := range m.Periods {
		if period == p {
			return i, nil
		}
	}
	return -1, ErrPeriodNotFound""","""	for i := 0; i < len(m.Periods); i++ {
		if m.Periods[i] == p {
			return i, nil
		}
	}
	return -1, ErrPeriodNotFound""")]
R["getindex-slices"]=[(P,"""	for i, period := range m.Periods {
		if period == p {
			return i, nil
		}
	}
	return -1, ErrPeriodNotFound""","""	idx := slices.Index(m.Periods, p)
	if idx < 0 {
		return -1, ErrPeriodNotFound
	}
	return idx, nil"""),(P,"""	"fmt"
""","""	"fmt"
	"slices"
""")]
R["getindex-break"]=[(P,"""	for i, period := range m.Periods {
		if period == p {
			return i, nil
		}
	}
	return -1, ErrPeriodNotFound""","""	idx := -1
	for i, period := range m.Periods {
		if period == p {
			idx = i
			break
		}
	}
	if idx == -1 {
		return -1, ErrPeriodNotFound
	}
	return idx, nil""")]
R["gettype-helper"]=[(P,"""	isEarlyTerminated := func(p *Period, m *MPD, idx, nrPeriods int) bool {
		return p.Duration != nil && (m.MinimumUpdatePeriod != nil ||
			(idx < nrPeriods-1 && m.Periods[idx+1].Start != nil))
	}
""",""),(P,"""	if p.Start != nil {
		if isEarlyTerminated(p, m, idx, nrPeriods) {
			return PTEarlyTerminated, nil
		}
		return PTRegular, nil
	}""","""	if p.Start != nil {
		if p.isEarlyTerminated(m, idx) {
			return PTEarlyTerminated, nil
		}
		return PTRegular, nil
	}"""),(P,"""		if isEarlyTerminated(p, m, idx, nrPeriods) {
			return PTEarlyTerminated, nil
		}
		return PTRegularOrEarlyTerminated, nil""","""		if p.isEarlyTerminated(m, idx) {
			return PTEarlyTerminated, nil
		}
		return PTRegularOrEarlyTerminated, nil"""),(P,"""	nrPeriods := len(m.Periods)
	idx, err := p.GetIndex()
	if err != nil {
		return PTBad, err
	}""","""	idx, err := p.GetIndex()
	if err != nil {
		return PTBad, err
	}"""),(P,"// GetType returns the type of period.","""// isEarlyTerminated tells if the period at idx ends early.
func (p *Period) isEarlyTerminated(m *MPD, idx int) bool {
	if p.Duration == nil {
		return false
	}
	if m.MinimumUpdatePeriod != nil {
		return true
	}
	last := idx >= len(m.Periods)-1
	return !last && m.Periods[idx+1].Start != nil
}

// GetType returns the type of period.""")]
R["gettype-capture"]=[(P,"""	isEarlyTerminated := func(p *Period, m *MPD, idx, nrPeriods int) bool {
		return""","""	isEarlyTerminated := func() bool {
		return"""),(P,"""	if p.Start != nil {
		if isEarlyTerminated(p, m, idx, nrPeriods) {""","""	if p.Start != nil {
		if isEarlyTerminated() {"""),(P,"""		if isEarlyTerminated(p, m, idx, nrPeriods) {
			return PTEarlyTerminated, nil
		}
		return PTRegularOrEarlyTerminated, nil""","""		if isEarlyTerminated() {
			return PTEarlyTerminated, nil
		}
		return PTRegularOrEarlyTerminated, nil""")]
R["gettype-onevar"]=[(P,"""	if p.Start != nil {
		if isEarlyTerminated(p, m, idx, nrPeriods) {""","""	early := isEarlyTerminated(p, m, idx, nrPeriods)
	if p.Start != nil {
		if early {"""),(P,"""		if isEarlyTerminated(p, m, idx, nrPeriods) {
			return PTEarlyTerminated, nil
		}
		return PTRegularOrEarlyTerminated, nil""","""		if early {
			return PTEarlyTerminated, nil
		}
		return PTRegularOrEarlyTerminated, nil""")]
R["gettype-const"]=[(P,"""	if m.GetType() == "dynamic" && (idx == 0 || m.Periods[idx-1].Duration == nil) {""","""	if m.GetType() == DYNAMIC_TYPE {""")]
R["getstart-switch"]=[(P,"""	if idx > 0 {
		prev := m.Periods[idx-1]
		if prev.Duration != nil {
			prevStart, err := prev.GetStart()
			if err != nil {
				return 0, fmt.Errorf("cannot get start of previous period: %w", err)
			}
			return prevStart + *prev.Duration, nil
		}
		return 0, ErrUnknownPeriodStart
	}
	// first period of static, but no start => start = 0
	if m.GetType() == STATIC_TYPE {
		return 0, nil
	}
	return 0, ErrUnknownPeriodStart""","""	if idx == 0 {
		// first period of static, but no start => start = 0
		if m.GetType() != STATIC_TYPE {
			return 0, ErrUnknownPeriodStart
		}
		return 0, nil
	}
	prev := m.Periods[idx-1]
	if prev.Duration == nil {
		return 0, ErrUnknownPeriodStart
	}
	prevStart, err := prev.GetStart()
	if err != nil {
		return 0, fmt.Errorf("cannot get start of previous period: %w", err)
	}
	return *prev.Duration + prevStart, nil""")]
R["getstart-order"]=[(P,"""	m := p.Parent()
	if m == nil {
		return 0, ErrParentNotSet
	}
	if p.Start != nil {
		return *p.Start, nil
	}
	idx, err := p.GetIndex()""","""	if p.parent == nil {
		return 0, ErrParentNotSet
	}
	m := p.parent
	if start := p.Start; start != nil {
		return *start, nil
	}
	idx, err := p.GetIndex()""")]
R["getduration-flat"]=[(P,"""	switch m.GetType() {
	case STATIC_TYPE:
		if m.MediaPresentationDuration == nil {
			return 0, ErrNoMediaPresentationDuration
		}
		end := *m.MediaPresentationDuration
		if idx < nrPeriods-1 {
			if m.Periods[idx+1].Start == nil {
				return 0, ErrUnknownPeriodDur
			}
			end = *m.Periods[idx+1].Start
		}
		if p.Start == nil {
			return 0, ErrUnknownPeriodDur
		}
		return end - *p.Start, nil
	default: // dynamic
		if p.Start == nil {
			// Early available period
			return 0, ErrUnknownPeriodDur
		}
		if idx == nrPeriods-1 {
			return 0, ErrUnknownPeriodDur
		}
		if m.Periods[idx+1].Start == nil {
			return 0, ErrUnknownPeriodDur
		}
		return *m.Periods[idx+1].Start - *p.Start, nil
	}""","""	isLast := idx == nrPeriods-1
	static := m.GetType() == STATIC_TYPE
	if static && m.MediaPresentationDuration == nil {
		return 0, ErrNoMediaPresentationDuration
	}
	if p.Start == nil {
		return 0, ErrUnknownPeriodDur
	}
	var end *Duration
	if !isLast {
		end = m.Periods[idx+1].Start
	} else if static {
		end = m.MediaPresentationDuration
	}
	if end == nil {
		return 0, ErrUnknownPeriodDur
	}
	return *end - *p.Start, nil""")]
R["getduration-helper"]=[(P,"""		if m.Periods[idx+1].Start == nil {
			return 0, ErrUnknownPeriodDur
		}
		return *m.Periods[idx+1].Start - *p.Start, nil
	}
}""","""		return p.untilNext(m.Periods[idx+1])
	}
}

func (p *Period) untilNext(next *Period) (Duration, error) {
	if next.Start == nil {
		return 0, ErrUnknownPeriodDur
	}
	return *next.Start - *p.Start, nil
}""")]
R["ptype-map"]=[(P,"""	switch p {
	case PTRegular:
		return "regular"
	case PTEarlyAvailable:
		return "early-available"
	case PTEarlyTerminated:
		return "early-terminated"
	}
	return "unknown"
""","""	switch {
	case p == PTEarlyAvailable:
		return "early-available"
	case p == PTEarlyTerminated:
		return "early-terminated"
	case p == PTRegular:
		return "regular"
	default:
		return "unknown"
	}
""")]
R["absstart-order"]=[(P,"""	return ast + pStart.Seconds(), nil""","""	offset := pStart.Seconds()
	return ast + offset, nil"""),(P,"""	if m.AvailabilityStartTime == "" {""","""	if len(m.AvailabilityStartTime) == 0 {""")]
R["absstart-named"]=[(P,"""func (p *Period) AbsoluteStart(m *MPD) (float64, error) {
	if m.AvailabilityStartTime == "" {
		return 0, ErrASTRequired
	}
	ast, err := m.AvailabilityStartTime.ConvertToSeconds()
	if err != nil {
		return 0, err
	}
	pStart, err := p.GetStart()
	if err != nil {
		return 0, err
	}
	return ast + pStart.Seconds(), nil""","""func (p *Period) AbsoluteStart(m *MPD) (start float64, err error) {
	if m.AvailabilityStartTime == "" {
		err = ErrASTRequired
		return
	}
	var ast float64
	if ast, err = m.AvailabilityStartTime.ConvertToSeconds(); err != nil {
		return 0, err
	}
	var pStart Duration
	if pStart, err = p.GetStart(); err != nil {
		return 0, err
	}
	start = ast + pStart.Seconds()
	return start, nil""")]
R["clone-generic"]=[(P,"""	pc := deepcopy.MustAnything(p).(*Period)
	pc.SetParents()
	return pc""","""	pc := deepCopy(p)
	pc.SetParents()
	return pc
}

func deepCopy[T any](v *T) *T {
	return deepcopy.MustAnything(v).(*T)"""),(M,"""	cm := deepcopy.MustAnything(mpd).(*MPD)""","""	cm := deepCopy(mpd)"""),(M,"""	ac := deepcopy.MustAnything(a).(*AdaptationSetType)""","""	ac := deepCopy(a)"""),(M,"""	"github.com/barkimedes/go-deepcopy"
""","")]
R["clone-vars"]=[(M,"""	cm := deepcopy.MustAnything(mpd).(*MPD)
	cm.SetParents()
	return cm""","""	var copied any = deepcopy.MustAnything(mpd)
	result := copied.(*MPD)
	result.SetParents()
	return result""")]
R["setparents-delegate"]=[(PA,"""	for _, p := range m.Periods {
		p.SetParent(m)
		for _, a := range p.AdaptationSets {
			a.SetParent(p)
			for _, r := range a.Representations {
				r.SetParent(a)
				for _, sr := range r.SubRepresentations {
					sr.SetParent(r)
				}
			}
		}
		for _, a := range p.EmptyAdaptationSets {
			a.SetParent(p)
			a.SetParents()
		}
	}""","""	for _, p := range m.Periods {
		p.SetParent(m)
		p.SetParents()
	}""")]
R["setparents-index"]=[(PA,"""func (r *RepresentationType) SetParents() {
	for _, sr := range r.SubRepresentations {
		sr.SetParent(r)
	}
}""","""func (r *RepresentationType) SetParents() {
	for i := range r.SubRepresentations {
		r.SubRepresentations[i].parent = r
	}
}"""),(PA,"""	for _, r := range a.Representations {
		r.SetParent(a)
		for _, sr := range r.SubRepresentations {
			sr.SetParent(r)
		}
	}
}

// AppendRep""","""	for _, r := range a.Representations {
		r.SetParents()
		r.SetParent(a)
	}
}

// AppendRep""")]
R["setparents-helper"]=[(PA,"""func (p *Period) SetParents() {
	for _, a := range p.AdaptationSets {
		a.SetParent(p)
		for _, r := range a.Representations {
			r.SetParent(a)
			for _, sr := range r.SubRepresentations {
				sr.SetParent(r)
			}
		}
	}
	for _, a := range p.EmptyAdaptationSets {
		a.SetParent(p)
		a.SetParents()
	}
}""","""func (p *Period) SetParents() {
	p.adopt(p.AdaptationSets)
	p.adopt(p.EmptyAdaptationSets)
}

func (p *Period) adopt(sets []*AdaptationSetType) {
	for _, a := range sets {
		a.SetParent(p)
		a.SetParents()
	}
}""")]
R["append-order"]=[(PA,"""	m.Periods = append(m.Periods, p)
	p.SetParent(m)""","""	p.SetParent(m)
	m.Periods = append(m.Periods, p)"""),(PA,"""	a.Representations = append(a.Representations, r)
	r.SetParent(a)""","""	r.parent = a
	reps := a.Representations
	reps = append(reps, r)
	a.Representations = reps""")]
R["timescale"]=[(M,"""	if s.Timescale == nil {
		return 1
	}
	return *s.Timescale""","""	if ts := s.Timescale; ts != nil {
		return *ts
	}
	return 1"""),(M,"""	if timescale == 1 {
		s.Timescale = nil
		return
	}
	s.Timescale = &timescale""","""	if timescale != 1 {
		s.Timescale = &timescale
	} else {
		s.Timescale = nil
	}""")]
R["timescale2"]=[(M,"""	if timescale == 1 {
		s.Timescale = nil
		return
	}
	s.Timescale = &timescale""","""	s.Timescale = nil
	if timescale != 1 {
		s.Timescale = Ptr(timescale)
	}""")]
R["getst-chain"]=[(M,"""	if r.SegmentTemplate == nil && r.parent != nil {
		return r.parent.GetSegmentTemplate()
	}
	return r.SegmentTemplate""","""	if st := r.SegmentTemplate; st != nil {
		return st
	}
	if p := r.Parent(); p != nil {
		return p.SegmentTemplate
	}
	return nil"""),(M,"""	if r.Codecs == "" && r.parent != nil {
		return r.parent.GetCodecs()
	}
	return r.Codecs""","""	if r.Codecs != "" {
		return r.Codecs
	}
	if r.parent == nil {
		return ""
	}
	return r.parent.GetCodecs()""")]
R["inherit-generic"]=[(M,"""	if r.MimeType == "" && r.parent != nil {
		return r.parent.GetMimeType()
	}
	return r.MimeType
}""","""	var inherited string
	if r.parent != nil {
		inherited = r.parent.GetMimeType()
	}
	return firstNonEmpty(r.MimeType, inherited)
}

func firstNonEmpty(a, b string) string {
	if a == "" {
		return b
	}
	return a
}""")]
R["getcp"]=[(M,"""	if len(r.ContentProtections) == 0 && r.parent != nil {
		return r.parent.GetContentProtections()
	}
	return r.ContentProtections""","""	if len(r.ContentProtections) > 0 || r.parent == nil {
		return r.ContentProtections
	}
	return r.parent.ContentProtections""")]
R["getinit-helper"]=[(M,"""	a := r.parent
	if a == nil {
		return "", ErrParentNotSet
	}
	st := r.GetSegmentTemplate()
	if st == nil {
		return "", ErrSegmentTemplateNotSet
	}
	initialization := r.replaceIdentifiers(st.Initialization)
	return initialization, nil""","""	st, err := r.effectiveTemplate()
	if err != nil {
		return "", err
	}
	return r.replaceIdentifiers(st.Initialization), nil"""),(M,"""	a := r.parent
	if a == nil {
		return "", ErrParentNotSet
	}
	st := r.GetSegmentTemplate()
	if st == nil {
		return "", ErrSegmentTemplateNotSet
	}
	media := r.replaceIdentifiers(st.Media)

	return media, nil
}""","""	st, err := r.effectiveTemplate()
	if err != nil {
		return "", err
	}
	return r.replaceIdentifiers(st.Media), nil
}

func (r *RepresentationType) effectiveTemplate() (*SegmentTemplateType, error) {
	if r.parent == nil {
		return nil, ErrParentNotSet
	}
	st := r.GetSegmentTemplate()
	if st == nil {
		return nil, ErrSegmentTemplateNotSet
	}
	return st, nil
}""")]
R["replace-vars"]=[(M,"""	return strings.NewReplacer(
		"$RepresentationID$", r.Id,
		"$Bandwidth$", strconv.FormatUint(uint64(r.Bandwidth), 10),
	).Replace(template)""","""	bandwidth := strconv.Itoa(int(r.Bandwidth))
	replacer := strings.NewReplacer(
		"$Bandwidth$", bandwidth,
		"$RepresentationID$", r.Id,
	)
	return replacer.Replace(template)""")]
R["replace-sprintf"]=[(M,"""strconv.FormatUint(uint64(r.Bandwidth), 10),""","""fmt.Sprintf("%d", r.Bandwidth),""")]
R["segbase"]=[(M,"""	initRange := fmt.Sprintf("0-%d", initSize-1)
	indexRange := fmt.Sprintf("%d-%d", initSize, initSize+sidxSize-1)
	r.SegmentBase = &SegmentBaseType{
		IndexRange: indexRange,
		Initialization: &URLType{
			Range: initRange,
		},
	}
	if indexRangeExact {
		r.SegmentBase.IndexRangeExact = true""","""	lastInit := initSize - 1
	lastSidx := initSize + sidxSize - 1
	r.SegmentBase = &SegmentBaseType{
		Initialization: &URLType{
			Range: fmt.Sprintf("%d-%d", 0, lastInit),
		},
		IndexRange: fmt.Sprintf("%d-%d", initSize, lastSidx),
	}
	if indexRangeExact {
		r.SegmentBase.IndexRangeExact = indexRangeExact""")]
R["segbase2"]=[(M,"""	r.SegmentBase = &SegmentBaseType{
		IndexRange: indexRange,
		Initialization: &URLType{
			Range: initRange,
		},
	}
	if indexRangeExact {
		r.SegmentBase.IndexRangeExact = true
	}""","""	sb := new(SegmentBaseType)
	sb.Initialization = new(URLType)
	sb.Initialization.Range = initRange
	sb.IndexRange = indexRange
	sb.IndexRangeExact = indexRangeExact
	r.SegmentBase = sb""")]
R["profile-contains"]=[(M,"""	for _, p := range strings.Split(string(l), ",") {
		if p == profile {
			return l
		}
	}

	return ListOfProfilesType(string(l) + "," + profile)""","""	if slices.Contains(strings.Split(string(l), ","), profile) {
		return l
	}
	return l + "," + ListOfProfilesType(profile)"""),(M,"""	"math"
""","""	"math"
	"slices"
""")]
R["profile-join"]=[(M,"""	for _, p := range strings.Split(string(l), ",") {
		if p == profile {
			return l
		}
	}

	return ListOfProfilesType(string(l) + "," + profile)""","""	profiles := strings.Split(string(l), ",")
	for i := 0; i < len(profiles); i++ {
		if profiles[i] == profile {
			return l
		}
	}
	profiles = append(profiles, profile)
	return ListOfProfilesType(strings.Join(profiles, ","))""")]
R["newmpd"]=[(M,"""	return &MPD{
		Type:  &mpdType,
		XMLNs: DASH_NAMESPACE,
	}""","""	m := &MPD{}
	m.XMLNs = DASH_NAMESPACE
	m.Type = Ptr(mpdType)
	return m"""),(M,"""	r := &RepresentationType{
		RepresentationBaseType: RepresentationBaseType{
			Codecs:   codec,
			MimeType: mimeType,
		},
		Id:        id,
		Bandwidth: uint32(bandwidth),
	}
	return r""","""	r := NewRepresentation()
	r.Id = id
	r.Bandwidth = uint32(bandwidth)
	r.Codecs, r.MimeType = codec, mimeType
	return r"""),(M,"""Ptr(UIntVectorType(fmt.Sprintf("%d", audioSamplingRate)))""","""Ptr(UIntVectorType(strconv.Itoa(audioSamplingRate)))""")]
R["floatinf"]=[(M,"""	if fl == math.Inf(+1) {
		return xml.Attr{Name: name, Value: "INF"}, nil
	}
	val := strconv.FormatFloat(fl, 'f', -1, 64)
	return xml.Attr{Name: name, Value: val}, nil""","""	attr := xml.Attr{Name: name}
	if math.IsInf(fl, 1) {
		attr.Value = "INF"
	} else {
		attr.Value = strconv.FormatFloat(fl, 'f', -1, 64)
	}
	return attr, nil"""),(M,"""	if attr.Value == "INF" {
		*f = FloatInf64(math.Inf(+1))
		return nil
	}
	fl, err := strconv.ParseFloat(attr.Value, 64)
	if err != nil {
		return err
	}
	*f = FloatInf64(fl)
	return nil""","""	var fl float64
	switch attr.Value {
	case "INF":
		fl = math.Inf(1)
	default:
		var err error
		if fl, err = strconv.ParseFloat(attr.Value, 64); err != nil {
			return err
		}
	}
	*f = FloatInf64(fl)
	return nil""")]
R["isscte35"]=[(S,"""	switch string(es.SchemeIdUri) {
	case SCTE35SchemeIdXML, SCTE35SchemeIdXMLBin, SCTE35SchemeIdBin:
		return true
	}
	return false""","""	uri := string(es.SchemeIdUri)
	return uri == SCTE35SchemeIdBin || uri == SCTE35SchemeIdXML || uri == SCTE35SchemeIdXMLBin"""),(S,"""	if e.Signal != nil && e.Signal.SpliceInfoSection != nil {
		return e.Signal.SpliceInfoSection
	}
	return e.SpliceInfoSection""","""	if s := e.Signal; s != nil {
		if sis := s.SpliceInfoSection; sis != nil {
			return sis
		}
	}
	return e.SpliceInfoSection""")]
R["isscte35-slice"]=[(S,"""	switch string(es.SchemeIdUri) {
	case SCTE35SchemeIdXML, SCTE35SchemeIdXMLBin, SCTE35SchemeIdBin:
		return true
	}
	return false""","""	for _, id := range []string{SCTE35SchemeIdXML, SCTE35SchemeIdXMLBin, SCTE35SchemeIdBin} {
		if string(es.SchemeIdUri) == id {
			return true
		}
	}
	return false""")]
R["read-bytes"]=[(I,"""	mpd := MPD{}
	err = xml.Unmarshal(data, &mpd)
	if err != nil {
		return nil, err
	}
	mpd.SetParents()
	return &mpd, nil
}

// ReadFromString""","""	return MPDFromBytes(data)
}

// ReadFromString"""),(I,"""	mpd := MPD{}
	err := xml.Unmarshal(data, &mpd)
	if err != nil {
		return nil, err
	}
	mpd.SetParents()
	return &mpd, nil""","""	mpd := new(MPD)
	if err := xml.Unmarshal(data, mpd); err != nil {
		return nil, err
	}
	mpd.SetParents()
	return mpd, nil""")]
R["writexml-tail"]=[(I,"""	if err := enc.Encode(elem); err != nil {
		return cw.n, err
	}
	if err := enc.Flush(); err != nil {
		return cw.n, err
	}
	return cw.n, nil""","""	err := enc.Encode(elem)
	if err == nil {
		err = enc.Flush()
	}
	return cw.n, err""")]
R["writexml-split"]=[(I,"""	enc := xml.AcquireEncoder(cw)
	defer xml.ReleaseEncoder(enc)
	enc.Indent("", indent)

	if err := enc.Encode(elem); err != nil {
		return cw.n, err
	}
	if err := enc.Flush(); err != nil {
		return cw.n, err
	}
	return cw.n, nil
}""","""	err := encodePooled(elem, cw, indent)
	return cw.n, err
}

func encodePooled(elem any, w io.Writer, indent string) error {
	enc := xml.AcquireEncoder(w)
	defer xml.ReleaseEncoder(enc)
	enc.Indent("", indent)
	if err := enc.Encode(elem); err != nil {
		return err
	}
	return enc.Flush()
}""")]
R["writestring-helper"]=[(I,"""	var sb strings.Builder
	sb.Grow(4096)
	if _, err := m.Write(&sb, indent, withHeader); err != nil {
		return "", err
	}
	return sb.String(), nil
}""","""	return writeToString(m, indent, withHeader)
}

func writeToString(elem any, indent string, withHeader bool) (string, error) {
	var sb strings.Builder
	sb.Grow(4096)
	if _, err := WriteXML(elem, &sb, indent, withHeader); err != nil {
		return "", err
	}
	return sb.String(), nil
}"""),(I,"""	var sb strings.Builder
	sb.Grow(4096)
	if _, err := p.Write(&sb, indent); err != nil {
		return "", err
	}
	return sb.String(), nil""","""	return writeToString(p, indent, false)""")]
R["counting-order"]=[(I,"""	n, err := cw.w.Write(p)
	cw.n += n
	return n, err""","""	written, err := cw.w.Write(p)
	cw.n = cw.n + written
	return written, err"""),(I,"""		if _, err := io.WriteString(cw, xml.Header); err != nil {
			return cw.n, err
		}""","""		_, err := cw.Write([]byte(xml.Header))
		if err != nil {
			return cw.n, err
		}""")]
R["convert-helper"]=[(I,"""	s := int64(seconds)
	ns := int64((seconds - float64(s)) * 1_000_000_000)
	t := time.Unix(s, ns).UTC()

	return DateTime(t.Format(RFC3339MS))""","""	whole := int64(seconds)
	frac := seconds - float64(whole)
	return unixDateTime(whole, int64(frac*1_000_000_000))"""),(I,"""	t := time.Unix(seconds, 0).UTC()
	return DateTime(t.Format(RFC3339MS))""","""	return unixDateTime(seconds, 0)"""),(I,"""	seconds := ms / 1000
	ns := (ms - 1000*seconds) * 1_000_000
	t := time.Unix(seconds, ns).UTC()
	return DateTime(t.Format(RFC3339MS))
}""","""	seconds := ms / 1000
	ns := (ms % 1000) * 1_000_000
	return unixDateTime(seconds, ns)
}

func unixDateTime(s, ns int64) DateTime {
	t := time.Unix(s, ns).UTC()
	return DateTime(t.Format(RFC3339MS))
}""")]
R["convert-milli"]=[(I,"""	seconds := ms / 1000
	ns := (ms - 1000*seconds) * 1_000_000
	t := time.Unix(seconds, ns).UTC()
	return DateTime(t.Format(RFC3339MS))""","""	t := time.UnixMilli(ms).UTC()
	return DateTime(t.Format(RFC3339MS))"""),(I,"""float64(t.Nanosecond())/1_000_000_000, nil""","""float64(t.Nanosecond())/1e9, nil""")]
R["dur-seconds"]=[(D,"""	return float64(*d) / float64(time.Second)""","""	return float64(*d) / 1e9""")]
R["dur-string-buf"]=[(D,"""	var buf [32]byte
""","""	var buf [40]byte
""")]
R["dur-string-rem"]=[(D,"""	s := u / uint64(time.Second)
	ns := u - s*uint64(time.Second)
""","""	s := u / uint64(time.Second)
	ns := u % uint64(time.Second)
""")]
R["dur-string-if"]=[(D,"""	switch {
	case s == 0 && ms == 0:
		// Time smaller than ms, return higher precision
		w, u = fmtFrac(buf[:w], u, 9)
		w = fmtInt(buf[:w], u)
	case s == 0:
		// Time smaller than 1s, return ms
		w, _ = fmtFrac(buf[:w], ms, 3)
		w--
		buf[w] = '0'
	default:""","""	if s == 0 {
		if ms == 0 {
			w, u = fmtFrac(buf[:w], u, 9)
			w = fmtInt(buf[:w], u)
		} else {
			w, _ = fmtFrac(buf[:w], ms, 3)
			w--
			buf[w] = '0'
		}
	} else {""")]
R["dur-put-closure"]=[(D,"""	w--
	buf[w] = 'T'
	w--
	buf[w] = 'P'
	if neg {
		w--
		buf[w] = '-'
	}
""","""	put := func(c byte) {
		w--
		buf[w] = c
	}
	put('T')
	put('P')
	if neg {
		put('-')
	}
""")]
R["fmtint-loop"]=[(D,"""	w := len(buf)
	if v == 0 {
		w--
		buf[w] = '0'
	} else {
		for v > 0 {
			w--
			buf[w] = byte(v%10) + '0'
			v /= 10
		}
	}
	return w""","""	w := len(buf)
	for {
		w--
		buf[w] = byte('0' + v%10)
		v /= 10
		if v == 0 {
			return w
		}
	}""")]
R["fmtint-early"]=[(D,"""	if v == 0 {
		w--
		buf[w] = '0'
	} else {
		for v > 0 {
			w--
			buf[w] = byte(v%10) + '0'
			v /= 10
		}
	}
	return w""","""	if v == 0 {
		buf[w-1] = '0'
		return w - 1
	}
	for v != 0 {
		q := v / 10
		w--
		buf[w] = '0' + byte(v-q*10)
		v = q
	}
	return w""")]
R["fmtfrac-index"]=[(D,"""	for range prec {
		digit""","""	for i := 0; i < prec; i++ {
		digit"""),(D,"""		print = print || digit != 0
		if print {""","""		if digit != 0 {
			print = true
		}
		if print {""")]
R["parse-const"]=[(D,"""	if len(str) < 3 {
		return 0, newParseDurationError("at least one number and designator are required")
	}
	if str[0] == '-' {""","""	if len(str) < len("P1D") {
		return 0, newParseDurationError("at least one number and designator are required")
	}
	if strings.HasPrefix(str, "-") {"""),(D,"""	"strconv"
""","""	"strconv"
	"strings"
""")]
R["parse-rankfunc"]=[(D,"""	// rank enforces D < H < M < S ordering.
	rank := func(c byte) int {
		switch c {
		case 'D':
			return 1
		case 'H':
			return 2
		case 'M':
			return 3
		case 'S':
			return 4
		}
		return 0
	}

""",""),(D,"// ParseDuration parses","""// rank enforces D < H < M < S ordering.
func rank(c byte) int {
	switch c {
	case 'D':
		return 1
	case 'H':
		return 2
	case 'M':
		return 3
	case 'S':
		return 4
	}
	return 0
}

// ParseDuration parses""")]
R["parse-errvar"]=[(D,"""		if rank(unit) == 0 {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}
		if rank(unit) <= rank(lastUnit) {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}
		if (unit != 'D') != afterT {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}
		if sawDot && unit != 'S' {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}""","""		r := rank(unit)
		isDay := unit == 'D'
		if r == 0 || r <= rank(lastUnit) || isDay == afterT || (sawDot && unit != 'S') {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}""")]
R["parse-helper"]=[(D,"""			n, err := strconv.ParseUint(numStr, 10, 64)
			if err != nil {
				return 0, newParseDurationError("error parsing Days")
			}
			if n > uint64(math.MaxInt64-total)/uint64(24*time.Hour) {
				return 0, newParseDurationError("duration is out of range")
			}
			total += time.Duration(n) * 24 * time.Hour""","""			d, err := scaled(numStr, 24*time.Hour, total, "Days")
			if err != nil {
				return 0, err
			}
			total += d"""),(D,"""			n, err := strconv.ParseUint(numStr, 10, 64)
			if err != nil {
				return 0, newParseDurationError("error parsing Hours")
			}
			if n > uint64(math.MaxInt64-total)/uint64(time.Hour) {
				return 0, newParseDurationError("duration is out of range")
			}
			total += time.Duration(n) * time.Hour""","""			d, err := scaled(numStr, time.Hour, total, "Hours")
			if err != nil {
				return 0, err
			}
			total += d"""),(D,"// ParseDuration parses","""func scaled(numStr string, unit, total time.Duration, what string) (time.Duration, error) {
	n, err := strconv.ParseUint(numStr, 10, 64)
	if err != nil {
		return 0, newParseDurationError("error parsing " + what)
	}
	if n > uint64(math.MaxInt64-total)/uint64(unit) {
		return 0, newParseDurationError("duration is out of range")
	}
	return time.Duration(n) * unit, nil
}

// ParseDuration parses""")]
R["parse-digits"]=[(D,"""		start := i
		sawDot := false
		for i < len(str) {
			b := str[i]
			if b >= '0' && b <= '9' {
				i++
				continue
			}
			if b == '.' && !sawDot {
				sawDot = true
				i++
				continue
			}
			break
		}
		if i == start {
			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
		}
		if i == len(str) {""","""		start := i
		sawDot := false
		for ; i < len(str); i++ {
			b := str[i]
			if '0' <= b && b <= '9' {
				continue
			}
			if sawDot || b != '.' {
				break
			}
			sawDot = true
		}
		if i == start || i == len(str) {""")]
R["ptrs"]=[("mpd/ptrs.go","""	us := time.Duration(math.Round(seconds * 1_000_000))
	d := Duration(us * time.Microsecond)
	return &d""","""	us := math.Round(seconds * 1e6)
	return Ptr(Duration(time.Duration(us) * time.Microsecond))""")]
R["vec"]=[(M,"""	*v = strings.Fields(attr.Value)
	return nil""","""	fields := strings.Fields(attr.Value)
	*v = fields
	return nil""")]
R["scte-ctor"]=[(S,"""	return &BreakDurationType{
		XMLName:    canonicalSCTE35Name("BreakDuration"),
		AutoReturn: autoReturn,
		Duration:   duration,
	}""","""	bd := &BreakDurationType{Duration: duration, AutoReturn: autoReturn}
	bd.XMLName.Space = SCTE35Namespace
	bd.XMLName.Local = "BreakDuration"
	return bd""")]

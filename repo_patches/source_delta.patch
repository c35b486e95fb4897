From d31111111a980b481a01e0a860857a95c2a0dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 01/22] fix: xml decoder looped forever on '>' in character
 data

text() pushed back an unescaped '>' in ordinary character data and
returned an empty text token, so reading e.g. <Title>a > b</Title> never
made progress. '>' is legal in character data (only ]]> is not), and
unquoted attribute values are read by attrval, not by text.
---
 xml/xml.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index d044c43..1d65454 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1063,11 +1063,6 @@ Input:
 			d.ungetc('<')
 			break Input
 		}
-		// This occurs only for an unquoted attr name.
-		if b == '>' && !cdata && quote < 0 { // Possible end of tag reached
-			d.ungetc('>') // Leaving end of tag available
-			break         // returning text
-		}
 		if quote >= 0 && b == byte(quote) {
 			break Input
 		}
-- 
2.43.0


From 7403c45a7c5ec2ea24bb79ec0ca56e9d59b63b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 02/22] fix: write and read AdaptationSet and SegmentList xlink
 attributes in the xlink namespace

---
 mpd/mpd.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3d02e9a..f45e41d 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -350,10 +350,10 @@ type UIntVWithIDType struct {
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
 // Note that XMLName is not set, since the same structure is used also for EmptyAdaptationSet.
 type AdaptationSetType struct {
-	XlinkHref               string                 `xml:"xlink:href,attr,omitempty"`
-	XlinkActuate            string                 `xml:"xlink:actuate,attr,omitempty"` // default is "onRequest"
-	XlinkType               string                 `xml:"xlink:type,attr,omitempty"`    // fixed "simple"
-	XlinkShow               string                 `xml:"xlink:show,attr,omitempty"`    // fixed "embed"
+	XlinkHref               string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate            string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default is "onRequest"
+	XlinkType               string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed "simple"
+	XlinkShow               string                 `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	Id                      *uint32                `xml:"id,attr"`
 	Group                   uint32                 `xml:"group,attr,omitempty"`
 	Lang                    string                 `xml:"lang,attr,omitempty"`
@@ -844,7 +844,7 @@ type SegmentListType struct {
 	XlinkHref    string            `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
 	XlinkActuate string            `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
 	XlinkType    string            `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	XlinkShow    string            `xml:"xlink:show,attr,omitempty"`                                 // fixed "embed"
+	XlinkShow    string            `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	SegmentURL   []*SegmentURLType `xml:"SegmentURL"`
 	MultipleSegmentBaseType
 }
-- 
2.43.0


From 79122a6e6c9b6e33a598c973b99e8dc3426206a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 03/22] fix: GroupLabel could not be read and was written as
 Label

LabelType is used for both Label and GroupLabel, so it must not fix the
element name.
---
 mpd/mpd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index f45e41d..c7cb912 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -710,11 +710,11 @@ type ContentPopularityRateType struct {
 }
 
 // LabelType is Label and Group Label.
+// Note that XMLName is not set, since the same structure is used for both elements.
 type LabelType struct {
-	XMLName xml.Name `xml:"Label"`
-	Id      uint32   `xml:"id,attr,omitempty"` // default = 0
-	Lang    string   `xml:"lang,attr,omitempty"`
-	Value   string   `xml:",chardata"`
+	Id    uint32 `xml:"id,attr,omitempty"` // default = 0
+	Lang  string `xml:"lang,attr,omitempty"`
+	Value string `xml:",chardata"`
 }
 
 // ProducerReferenceTimeType is Producer Reference time.
-- 
2.43.0


From b11d6ebedb94686ec05f22a570ccc1961f49f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 04/22] fix: InitializationGroup and InitializationPresentation
 could not be read

UIntVWithIDType fixed the element name UIntVWithID, which no MPD element
has, and its vector value was not mapped to the element text.
---
 mpd/mpd.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index c7cb912..2559143 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -338,13 +338,13 @@ type UIntPairsWithIDType struct {
 	*UIntVectorType
 }
 
-// UIntVWithIDType is UInt Vector With ID
+// UIntVWithIDType is UInt Vector With ID, used for InitializationGroup and InitializationPresentation.
+// Note that XMLName is not set, since the same structure is used for both elements.
 type UIntVWithIDType struct {
-	XMLName     xml.Name               `xml:"UIntVWithID"`
-	Id          uint32                 `xml:"id,attr"`
-	Profiles    ListOfProfilesType     `xml:"profiles,attr,omitempty"`
-	ContentType RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
-	UIntVectorType
+	Id             uint32                 `xml:"id,attr"`
+	Profiles       ListOfProfilesType     `xml:"profiles,attr,omitempty"`
+	ContentType    RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
+	UIntVectorType `xml:",chardata"`
 }
 
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
-- 
2.43.0


From bc7f4717f45cc50737db05d5017c2d4ff3d70570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 05/22] fix: QualityLatency could not be read

UIntPairsWithIDType fixed the element name UIntPairsWithID, which no MPD
element has, and its vector value was not mapped to the element text.
---
 mpd/mpd.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 2559143..3d1105d 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -333,9 +333,8 @@ type PlaybackRestrictionsType struct {
 
 // UIntPairsWithIDType is UInt Pairs With ID.
 type UIntPairsWithIDType struct {
-	XMLName xml.Name `xml:"UIntPairsWithID"`
-	Type    AnyURI   `xml:"type,attr,omitempty"`
-	*UIntVectorType
+	Type            AnyURI `xml:"type,attr,omitempty"`
+	*UIntVectorType `xml:",chardata"`
 }
 
 // UIntVWithIDType is UInt Vector With ID, used for InitializationGroup and InitializationPresentation.
-- 
2.43.0


From d0a96e30428ab0f1cfb6408dc634d9bcda9b3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 06/22] fix: Switching interval is an attribute, not a child
 element

---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3d1105d..efc4926 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -755,7 +755,7 @@ type SubsetType struct {
 // SwitchingType is Switching
 type SwitchingType struct {
 	XMLName  xml.Name          `xml:"Switching"`
-	Interval uint32            `xml:"interval"`
+	Interval uint32            `xml:"interval,attr"`
 	Type     SwitchingTypeType `xml:"type,attr,omitempty"` // default = "media"
 }
 
-- 
2.43.0


From c58802cbb6b9f599d8c0f99ec61dc009db0d70a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:04 +0000
Subject: [PATCH 07/22] fix: durations rounding up to one second were written
 as PT0S

---
 mpd/duration.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpd/duration.go b/mpd/duration.go
index 3befc58..157afe8 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -69,6 +69,10 @@ func (d *Duration) String() string {
 	s := u / uint64(time.Second)
 	ns := u - s*uint64(time.Second)
 	ms := uint64(math.Round(float64(ns) * 1.0e-6))
+	if ms == 1000 { // Rounded up to a full second
+		s++
+		ms = 0
+	}
 
 	w--
 	buf[w] = 'S' // End with Seconds
-- 
2.43.0


From c5046fbfc0f5e3605d571827d0773d09edc9f171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 08/22] fix: ParseDuration silently overflowed on durations
 beyond the time.Duration range

---
 mpd/duration.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mpd/duration.go b/mpd/duration.go
index 157afe8..482be66 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -266,24 +266,36 @@ func ParseDuration(str string) (time.Duration, error) {
 			if err != nil {
 				return 0, newParseDurationError("error parsing Days")
 			}
+			if n > uint64(math.MaxInt64-total)/uint64(24*time.Hour) {
+				return 0, newParseDurationError("duration is out of range")
+			}
 			total += time.Duration(n) * 24 * time.Hour
 		case 'H':
 			n, err := strconv.ParseUint(numStr, 10, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Hours")
 			}
+			if n > uint64(math.MaxInt64-total)/uint64(time.Hour) {
+				return 0, newParseDurationError("duration is out of range")
+			}
 			total += time.Duration(n) * time.Hour
 		case 'M':
 			n, err := strconv.ParseUint(numStr, 10, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Minutes")
 			}
+			if n > uint64(math.MaxInt64-total)/uint64(time.Minute) {
+				return 0, newParseDurationError("duration is out of range")
+			}
 			total += time.Duration(n) * time.Minute
 		case 'S':
 			f, err := strconv.ParseFloat(numStr, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Seconds")
 			}
+			if f*float64(time.Second) >= float64(math.MaxInt64-total) {
+				return 0, newParseDurationError("duration is out of range")
+			}
 			total += time.Duration(f * float64(time.Second))
 		}
 	}
-- 
2.43.0


From bde83420ed6dd56b8ab0a38799e3b14531b16c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 09/22] fix: ParseDuration accepted a T designator without any
 time component

---
 mpd/duration.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpd/duration.go b/mpd/duration.go
index 482be66..62b02a4 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -302,6 +302,9 @@ func ParseDuration(str string) (time.Duration, error) {
 	if !seenAny {
 		return 0, newParseDurationError("at least one number and designator are required")
 	}
+	if afterT && rank(lastUnit) <= rank('D') {
+		return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
+	}
 	return total, nil
 }
 
-- 
2.43.0


From f6a395f3ef24fe54d1ac192a9c32f4ce1b0344bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 10/22] fix: SetTimescale(1) wrote the default timescale
 instead of leaving it out

---
 mpd/mpd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index efc4926..3a7271e 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -803,6 +803,7 @@ func (s SegmentBaseType) GetTimescale() uint32 {
 func (s *SegmentBaseType) SetTimescale(timescale uint32) {
 	if timescale == 1 {
 		s.Timescale = nil
+		return
 	}
 	s.Timescale = &timescale
 }
-- 
2.43.0


From 6fc3f1458970ffbb269ca88487ac916100d2fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 11/22] fix: set parents of EmptyAdaptationSets and their
 Representations

---
 mpd/parents.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpd/parents.go b/mpd/parents.go
index 6bbc61c..dff27ef 100644
--- a/mpd/parents.go
+++ b/mpd/parents.go
@@ -14,6 +14,10 @@ func (m *MPD) SetParents() {
 				}
 			}
 		}
+		for _, a := range p.EmptyAdaptationSets {
+			a.SetParent(p)
+			a.SetParents()
+		}
 	}
 }
 
@@ -34,6 +38,10 @@ func (p *Period) SetParents() {
 			}
 		}
 	}
+	for _, a := range p.EmptyAdaptationSets {
+		a.SetParent(p)
+		a.SetParents()
+	}
 }
 
 // AppendAdaptationSet appends an AdaptationSet to the Period and sets parent pointer.
-- 
2.43.0


From 9a12e70bd140f9eaf60cb667b8ebdfa10b3257b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 12/22] fix: Representation getters panicked when no parent was
 set

---
 mpd/mpd.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3a7271e..700a465 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -555,7 +555,7 @@ type RepresentationBaseType struct {
 }
 
 func (r *RepresentationType) GetSegmentTemplate() *SegmentTemplateType {
-	if r.SegmentTemplate == nil {
+	if r.SegmentTemplate == nil && r.parent != nil {
 		return r.parent.GetSegmentTemplate()
 	}
 	return r.SegmentTemplate
@@ -584,7 +584,7 @@ func (r *RepresentationType) GetInit() (string, error) {
 // TODO: Apply BaseURLs.
 func (r *RepresentationType) GetMedia() (string, error) {
 	a := r.parent
-	if a == nil || r == nil {
+	if a == nil {
 		return "", ErrParentNotSet
 	}
 	st := r.GetSegmentTemplate()
@@ -600,7 +600,7 @@ func (r *RepresentationType) GetMedia() (string, error) {
 
 // GetMimeType returns the representation's or its parent's mime type.
 func (r *RepresentationType) GetMimeType() string {
-	if r.MimeType == "" {
+	if r.MimeType == "" && r.parent != nil {
 		return r.parent.GetMimeType()
 	}
 	return r.MimeType
@@ -608,7 +608,7 @@ func (r *RepresentationType) GetMimeType() string {
 
 // GetCodecs returns the representation's or its parent's codecs string.
 func (r *RepresentationType) GetCodecs() string {
-	if r.Codecs == "" {
+	if r.Codecs == "" && r.parent != nil {
 		return r.parent.GetCodecs()
 	}
 	return r.Codecs
@@ -616,7 +616,7 @@ func (r *RepresentationType) GetCodecs() string {
 
 // GetContentProtections returns the representation's or its parent's content protections.
 func (r *RepresentationType) GetContentProtections() []*ContentProtectionType {
-	if len(r.ContentProtections) == 0 {
+	if len(r.ContentProtections) == 0 && r.parent != nil {
 		return r.parent.GetContentProtections()
 	}
 	return r.ContentProtections
-- 
2.43.0


From 6dbb7825b0f0bc558260592f5857bb8bc443346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 13/22] fix: ConvertToSeconds overflowed for dates before 1678
 or after 2262

---
 mpd/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/io.go b/mpd/io.go
index 8295cd1..c99e587 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -145,5 +145,5 @@ func (dt DateTime) ConvertToSeconds() (float64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return float64(t.UnixNano()) / 1_000_000_000, nil
+	return float64(t.Unix()) + float64(t.Nanosecond())/1_000_000_000, nil
 }
-- 
2.43.0


From db6dfa9e081be67ecf4fd92fe70039ca5f4c7075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 14/22] fix: marshaling panicked on an attribute behind a nil
 embedded pointer

---
 xml/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index c8acede..4d06da7 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -623,7 +623,7 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 
 		fv := finfo.value(val, dontInitNilPointers)
 
-		if finfo.flags&fOmitEmpty != 0 && (!fv.IsValid() || isEmptyValue(fv)) {
+		if !fv.IsValid() || finfo.flags&fOmitEmpty != 0 && isEmptyValue(fv) {
 			continue
 		}
 
-- 
2.43.0


From 8a0292506a566116308d0af6e70b47c016c875da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 15/22] fix: string list attributes were written as duplicate
 attributes

StringNoWhitespaceVectorType attributes (CMCDParameters keys and
includeInRequests) hold a whitespace-separated list, but were written as
one attribute per item and read as a single item.
---
 mpd/mpd.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 700a465..be51e5d 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -995,6 +995,18 @@ type LeapSecondInformationType struct {
 // StringNoWhitespaceVectorType is Whitespace-separated list of no-whitespace strings
 type StringNoWhitespaceVectorType []string
 
+func (v *StringNoWhitespaceVectorType) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
+	if v == nil {
+		return xml.Attr{}, nil
+	}
+	return xml.Attr{Name: name, Value: strings.Join(*v, " ")}, nil
+}
+
+func (v *StringNoWhitespaceVectorType) UnmarshalXMLAttr(attr xml.Attr) error {
+	*v = strings.Fields(attr.Value)
+	return nil
+}
+
 // ContentSteeringType is Content Steering.
 type ContentSteeringType struct {
 	DefaultServiceLocation string `xml:"defaultServiceLocation,attr,omitempty"`
-- 
2.43.0


From 12b696fc00afd494a7e177e40b492af51670c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:03 +0000
Subject: [PATCH 16/22] fix: GetInit and GetMedia replaced identifiers inside
 the inserted representation ID

---
 mpd/mpd.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index be51e5d..8973f7b 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -573,9 +573,7 @@ func (r *RepresentationType) GetInit() (string, error) {
 	if st == nil {
 		return "", ErrSegmentTemplateNotSet
 	}
-	initialization := st.Initialization
-	initialization = strings.ReplaceAll(initialization, "$RepresentationID$", r.Id)
-	initialization = strings.ReplaceAll(initialization, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
+	initialization := r.replaceIdentifiers(st.Initialization)
 	return initialization, nil
 }
 
@@ -591,13 +589,20 @@ func (r *RepresentationType) GetMedia() (string, error) {
 	if st == nil {
 		return "", ErrSegmentTemplateNotSet
 	}
-	media := st.Media
-	media = strings.ReplaceAll(media, "$RepresentationID$", r.Id)
-	media = strings.ReplaceAll(media, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
+	media := r.replaceIdentifiers(st.Media)
 
 	return media, nil
 }
 
+// replaceIdentifiers replaces $RepresentationID$ and $Bandwidth$ in one pass,
+// so that a representation ID which looks like an identifier is not replaced.
+func (r *RepresentationType) replaceIdentifiers(template string) string {
+	return strings.NewReplacer(
+		"$RepresentationID$", r.Id,
+		"$Bandwidth$", strconv.FormatUint(uint64(r.Bandwidth), 10),
+	).Replace(template)
+}
+
 // GetMimeType returns the representation's or its parent's mime type.
 func (r *RepresentationType) GetMimeType() string {
 	if r.MimeType == "" && r.parent != nil {
-- 
2.43.0


From 11fc64193a5782576d5f7f01f69dd0fc0e5fd2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 17/22] fix: inherited child elements were written after those
 of the extending type

The DASH schema puts the elements of the base type before those of the
extension, so SegmentList, InitializationSet, Preselection and the segment
timeline of SegmentTemplate were written in an order the schema rejects.
---
 mpd/mpd.go | 64 +++++++++++++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 8973f7b..38df7dd 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -256,23 +256,23 @@ type SelectionType struct {
 
 // InitializationSetType is Initialization Set.
 type InitializationSetType struct {
-	XMLName         xml.Name               `xml:"InitializationSet"`
-	XlinkHref       string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
-	XlinkActuate    string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
-	XlinkType       string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	Id              uint32                 `xml:"id,attr"`
-	InAllPeriods    *bool                  `xml:"inAllPeriods,attr"` // default is true
-	ContentType     RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
-	Par             RatioType              `xml:"par,attr,omitempty"`
-	MaxWidth        uint32                 `xml:"maxWidth,attr,omitempty"`
-	MaxHeight       uint32                 `xml:"maxHeight,attr,omitempty"`
-	MaxFrameRate    string                 `xml:"maxFrameRate,attr,omitempty"`
-	Initialization  AnyURI                 `xml:"initialization,attr,omitempty"`
-	Accessibilities []*DescriptorType      `xml:"Accessibility"`
-	Roles           []*DescriptorType      `xml:"Role"`
-	Ratings         []*DescriptorType      `xml:"Rating"`
-	Viewpoints      []*DescriptorType      `xml:"Viewpoint"`
+	XMLName        xml.Name               `xml:"InitializationSet"`
+	XlinkHref      string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate   string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
+	XlinkType      string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
+	Id             uint32                 `xml:"id,attr"`
+	InAllPeriods   *bool                  `xml:"inAllPeriods,attr"` // default is true
+	ContentType    RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
+	Par            RatioType              `xml:"par,attr,omitempty"`
+	MaxWidth       uint32                 `xml:"maxWidth,attr,omitempty"`
+	MaxHeight      uint32                 `xml:"maxHeight,attr,omitempty"`
+	MaxFrameRate   string                 `xml:"maxFrameRate,attr,omitempty"`
+	Initialization AnyURI                 `xml:"initialization,attr,omitempty"`
 	RepresentationBaseType
+	Accessibilities []*DescriptorType `xml:"Accessibility"`
+	Roles           []*DescriptorType `xml:"Role"`
+	Ratings         []*DescriptorType `xml:"Rating"`
+	Viewpoints      []*DescriptorType `xml:"Viewpoint"`
 }
 
 // ServiceDescriptionType is Service Description.
@@ -740,11 +740,11 @@ type PreselectionType struct {
 	PreselectionComponents *StringVectorType     `xml:"preselectionComponents,attr"`
 	Lang                   string                `xml:"lang,attr,omitempty"`
 	Order                  PreselectionOrderType `xml:"order,attr,omitempty"`
-	Accessibilities        []*DescriptorType     `xml:"Accessibility"`
-	Roles                  []*DescriptorType     `xml:"Role"`
-	Ratings                []*DescriptorType     `xml:"Rating"`
-	Viewpoints             []*DescriptorType     `xml:"Viewpoint"`
 	RepresentationBaseType
+	Accessibilities []*DescriptorType `xml:"Accessibility"`
+	Roles           []*DescriptorType `xml:"Role"`
+	Ratings         []*DescriptorType `xml:"Rating"`
+	Viewpoints      []*DescriptorType `xml:"Viewpoint"`
 }
 
 // AudioSamplingRateType is UIntVectorType with 1 or 2 components.
@@ -815,15 +815,15 @@ func (s *SegmentBaseType) SetTimescale(timescale uint32) {
 
 // MultipleSegmentBaseType is Multiple Segment information base.
 type MultipleSegmentBaseType struct {
-	Duration           *uint32              `xml:"duration,attr,omitempty"`
-	Tolerance          *float64             `xml:"tolerance,attr,omitempty"`
-	StartNumber        *uint32              `xml:"startNumber,attr,omitempty"`
-	EndNumber          *uint32              `xml:"endNumber,attr,omitempty"`
-	EndSubNumber       *uint64              `xml:"endSubNumber,attr,omitempty"`
-	K                  *uint64              `xml:"k,attr,omitempty"` // Number of Segments per Sequence (Ed. 6)
+	Duration     *uint32  `xml:"duration,attr,omitempty"`
+	Tolerance    *float64 `xml:"tolerance,attr,omitempty"`
+	StartNumber  *uint32  `xml:"startNumber,attr,omitempty"`
+	EndNumber    *uint32  `xml:"endNumber,attr,omitempty"`
+	EndSubNumber *uint64  `xml:"endSubNumber,attr,omitempty"`
+	K            *uint64  `xml:"k,attr,omitempty"` // Number of Segments per Sequence (Ed. 6)
+	SegmentBaseType
 	SegmentTimeline    *SegmentTimelineType `xml:"SegmentTimeline"`
 	BitstreamSwitching *URLType             `xml:"BitstreamSwitching"`
-	SegmentBaseType
 }
 
 // URLType is Segment Info item URL/range.
@@ -846,12 +846,12 @@ type FailoverContentType struct {
 
 // SegmentListType is Segment List.
 type SegmentListType struct {
-	XlinkHref    string            `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
-	XlinkActuate string            `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
-	XlinkType    string            `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	XlinkShow    string            `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
-	SegmentURL   []*SegmentURLType `xml:"SegmentURL"`
+	XlinkHref    string `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate string `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
+	XlinkType    string `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
+	XlinkShow    string `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	MultipleSegmentBaseType
+	SegmentURL []*SegmentURLType `xml:"SegmentURL"`
 }
 
 // SegmentURLType is Segment URL.
-- 
2.43.0


From beef4ef49a1d69eb49470ffceed5bd67969e3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 18/22] fix: ParseDuration accepted days after T and seconds
 without digits around the decimal point

---
 mpd/duration.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 62b02a4..0cd750c 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -249,7 +249,7 @@ func ParseDuration(str string) (time.Duration, error) {
 		if rank(unit) <= rank(lastUnit) {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
-		if unit != 'D' && !afterT {
+		if (unit != 'D') != afterT {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
 		if sawDot && unit != 'S' {
@@ -259,6 +259,9 @@ func ParseDuration(str string) (time.Duration, error) {
 		seenAny = true
 
 		numStr := str[start : i-1] // digits (and maybe '.') without the unit letter
+		if numStr[0] == '.' || numStr[len(numStr)-1] == '.' {
+			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
+		}
 
 		switch unit {
 		case 'D':
-- 
2.43.0


From 0e21c8364ba1eb8df22f9ef7809dcd2f0465d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 19/22] fix: ParseDuration cut fractional seconds to a
 nanosecond below their value

---
 mpd/duration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 0cd750c..3dfff9b 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -299,7 +299,7 @@ func ParseDuration(str string) (time.Duration, error) {
 			if f*float64(time.Second) >= float64(math.MaxInt64-total) {
 				return 0, newParseDurationError("duration is out of range")
 			}
-			total += time.Duration(f * float64(time.Second))
+			total += time.Duration(math.Round(f * float64(time.Second)))
 		}
 	}
 	if !seenAny {
-- 
2.43.0


From ffe350efc3e30fd24b3f91a6cf843f7281a18a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:55 +0000
Subject: [PATCH 20/22] fix: EncodeElement dropped the attributes of the start
 element given

---
 xml/marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 4d06da7..e33fbde 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -610,8 +610,8 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	}
 
 	// Pre-size start.Attr to avoid repeated backing-array copies.
-	if cap(start.Attr) < tinfo.nAttrs {
-		start.Attr = make([]Attr, 0, tinfo.nAttrs)
+	if n := len(start.Attr) + tinfo.nAttrs; cap(start.Attr) < n {
+		start.Attr = append(make([]Attr, 0, n), start.Attr...)
 	}
 
 	// Attributes
-- 
2.43.0


From 2830aeebf59583d735fb200fde92f4d3bb84a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:53 +0000
Subject: [PATCH 21/22] fix: default namespaces were taken to be in scope below
 an element that declares another

---
 xml/marshal.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index e33fbde..8562ffa 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -371,6 +371,8 @@ type element struct {
 	name       string
 	nsToPrefix map[string]string
 	prefixToNS map[string]string
+	hasDefault bool   // the element declares a default namespace
+	defaultNS  string // that namespace
 }
 
 func newElement(name Name) element {
@@ -832,9 +834,10 @@ func (p *printer) writeStart(start *StartElement) error {
 		}
 		// Walk up the tree to see if a default namespace is already defined without a prefix.
 		if !spaceDefined && e.prefix == "" {
+			// The nearest declaration decides.
 			for i := len(p.elements) - 2; i >= 0; i-- {
-				if p.elements[i].prefix == "" && p.elements[i].xmlns == e.xmlns {
-					spaceDefined = true
+				if p.elements[i].hasDefault {
+					spaceDefined = p.elements[i].xmlns == e.xmlns && p.elements[i].defaultNS == e.xmlns
 					break
 				}
 			}
@@ -878,6 +881,7 @@ func (p *printer) writeStart(start *StartElement) error {
 			p.WriteString(` xmlns="`)
 			p.EscapeString(e.xmlns)
 			p.WriteByte('"')
+			e.hasDefault, e.defaultNS = true, e.xmlns
 		}
 	} else {
 		p.WriteString(e.name)
@@ -888,6 +892,9 @@ func (p *printer) writeStart(start *StartElement) error {
 		if attr.Name.Local == "" {
 			continue
 		}
+		if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix {
+			e.hasDefault, e.defaultNS = true, attr.Value
+		}
 		prefix, local := splitPrefixed(attr.Name.Local)
 		p.WriteByte(' ')
 		if attr.Name.Space == xmlnsURL {
-- 
2.43.0


From 43d35133e38cbdb16d149a9db4639a3403f78b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:33 +0000
Subject: [PATCH 22/22] fix: the lenient decoder swallowed the '>' after an
 attribute without value

---
 xml/xml.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xml/xml.go b/xml/xml.go
index 1d65454..d1689db 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -871,6 +871,7 @@ func (d *Decoder) rawToken() (Token, error) {
 				d.err = d.syntaxError("attribute name without = in element")
 				return nil, d.err
 			}
+			d.ungetc(b)
 			a.Value = a.Name.Local
 		} else {
 			d.space()
-- 
2.43.0


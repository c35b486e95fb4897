package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", func(r *Report) {
		r.Rule("links", "for every child list below the node a loop visits every index of the final list and sets the element's parent link to its container, on every path")
		r.Rule("append", "the child becomes the last element of the list and its parent link is the container")
		r.Rule("parent-accessor", "SetParent stores exactly what Parent reports")
		m := func(t, n string) *ssa.Function { return r.P.Method(r.P.MPD, t, n) }
		r.checkLinks("links", m("MPD", "SetParents"), "MPD.SetParents", "MPD", false)
		r.checkLinks("links", m("Period", "SetParents"), "Period.SetParents", "Period", false)
		r.checkLinks("links", m("AdaptationSetType", "SetParents"), "AdaptationSetType.SetParents", "AdaptationSetType", false)
		r.checkLinks("links", m("RepresentationType", "SetParents"), "RepresentationType.SetParents", "RepresentationType", false)
		for _, n := range []string{"Clone", "ReadFromFile", "ReadFromString", "MPDFromBytes"} {
			r.checkLinks("links", r.P.MPD.Func(n), n, "MPD", true)
		}
		r.checkLinks("links", m("Period", "Clone"), "Period.Clone", "Period", true)
		r.checkLinks("links", m("AdaptationSetType", "Clone"), "AdaptationSetType.Clone", "AdaptationSetType", true)
		r.Floor("links", 40)
		for _, n := range []string{"MPD_AppendPeriod", "Period_AppendAdaptationSet", "AdaptationSetType_AppendRepresentation", "RepresentationType_AppendSubRepresentation"} {
			r.equivalence("append", n)
		}
		for _, n := range []string{"Period", "AdaptationSetType", "RepresentationType", "SubRepresentationType"} {
			r.setThenGet("parent-accessor", n)
		}
	})
	register("C02", func(r *Report) {
		r.Rule("deep-copy", "the returned value is the deep copy of the argument, nothing reachable from the argument is stored into it and nothing reachable from the argument is written")
		r.Rule("copyable", "every type reachable from the cloned nodes is fully handled by the deep copy; the parent link is the only field left out")
		r.checkClone("deep-copy", r.P.MPD.Func("Clone"), "Clone")
		r.checkClone("deep-copy", r.P.Method(r.P.MPD, "Period", "Clone"), "Period.Clone")
		r.checkClone("deep-copy", r.P.Method(r.P.MPD, "AdaptationSetType", "Clone"), "AdaptationSetType.Clone")
		r.Floor("deep-copy", 3)
		r.copyable("copyable", "MPD", "Period", "AdaptationSetType")
		r.Floor("copyable", 60)
	})
	register("C03", func(r *Report) {
		r.Rule("timing-reference", "the guarded result of the accessor equals that of the reference definition for every assignment of the document's attributes")
		for _, n := range []string{"Period_GetIndex", "Period_GetStart", "Period_GetDuration", "Period_GetType", "Duration_Seconds"} {
			r.equivalence("timing-reference", n)
		}
		r.equiv("timing-reference", "Period_AbsoluteStart", eqOpt{opaque: []string{"Period_GetStart", "DateTime_ConvertToSeconds"}})
		r.Floor("timing-reference", 6)
	})
	register("C04", func(r *Report) {
		r.Rule("panic-free", "no dereference, index, division, conversion or assertion in the accessor or anything it calls can fail, whatever fields are unset")
		for _, fn := range r.P.accessors() {
			r.panicFree("panic-free", fn)
		}
		r.Floor("panic-free", 25)
	})
	register("C05", func(r *Report) {
		r.Rule("effective-value", "the guarded result (and final state) of the accessor equals own value, else parent's, else default")
		for _, n := range []string{"MPD_GetType", "AdaptationSetType_GetSegmentTemplate", "AdaptationSetType_GetMimeType", "AdaptationSetType_GetCodecs",
			"AdaptationSetType_GetContentProtections", "RepresentationType_GetSegmentTemplate", "RepresentationType_GetMimeType",
			"RepresentationType_GetCodecs", "RepresentationType_GetContentProtections", "SegmentBaseType_GetTimescale",
			"SegmentBaseType_SetTimescale", "EventStreamType_IsSCTE35", "EventType_SpliceInfo"} {
			r.equivalence("effective-value", n)
		}
		r.Floor("effective-value", 13)
	})
	register("C06", func(r *Report) {
		r.Rule("single-substitution", "the result is one simultaneous replacement of both identifiers in the effective template's attribute, or an error without parent or template")
		r.equivalence("single-substitution", "RepresentationType_GetInit")
		r.equivalence("single-substitution", "RepresentationType_GetMedia")
		r.Floor("single-substitution", 2)
	})
	register("C07", func(r *Report) {
		r.xmlPart("C07")
		r.Rule("write-contract", "success implies header (when asked for), element and buffered rest were handed over without error; each error reaches the caller; the count is the destination's counter after the last write")
		r.Rule("counting-writer", "the counter grows by exactly the bytes the destination accepted, whose results are passed on")
		r.Rule("quiet", "setting up and releasing the encoder writes nothing")
		r.Rule("delegation", "the Write and WriteToString variants return what WriteXML returned, the exact text on success and no text with an error")
		r.checkWriter()
		r.noWrites("quiet", "AcquireEncoder", "ReleaseEncoder", "NewEncoder", "Encoder_Indent")
		for _, n := range []string{"MPD_Write", "Period_Write", "MPD_WriteToString", "Period_WriteToString"} {
			r.equiv("delegation", n, eqOpt{events: []string{"WriteXML"}, strict: strings.HasSuffix(n, "_Write")})
		}
		r.Floor("write-contract", 6)
		r.Floor("delegation", 4)
	})
	register("C14", func(r *Report) {
		r.Rule("duration-grammar", "the parser's summary (entry tests, one arbitrary iteration, loop exits) equals that of the reference scanner")
		r.equivalence("duration-grammar", "ParseDuration")
		r.equivalence("duration-grammar", "Duration_UnmarshalXMLAttr")
		r.Floor("duration-grammar", 2)
	})
	register("C15", func(r *Report) {
		r.Rule("rendering", "the summary of the conversion equals the reference")
		r.equivalence("rendering", "Duration_MarshalXMLAttr", 0)
		r.equivalence("rendering", "FloatInf64_MarshalXMLAttr", 0)
		r.equivalence("rendering", "FloatInf64_UnmarshalXMLAttr")
		r.equiv("rendering", "Duration_String", eqOpt{noBounds: true})
		r.Floor("rendering", 4)
	})
	register("C16", func(r *Report) {
		r.Rule("same-instant", "the conversion computes the same UTC instant in the same layout as the reference")
		for _, n := range []string{"ConvertToDateTime", "ConvertToDateTimeS", "ConvertToDateTimeMS", "DateTime_ConvertToSeconds"} {
			r.equivalence("same-instant", n)
		}
		r.Floor("same-instant", 4)
	})
	register("C30", func(r *Report) {
		r.Rule("constructor", "the summary of the constructor equals the reference: each argument in the field it is named for, everything else at its initial value")
		r.Rule("identifier", "the exported constant has exactly the value its specification registers")
		for _, n := range r.P.references() {
			if strings.HasPrefix(n, "New") || n == "Ptr" || strings.HasPrefix(n, "Seconds2") {
				r.equivalence("constructor", n)
			}
		}
		r.Floor("constructor", 35)
		r.checkConstants()
		r.Floor("identifier", 90)
	})
	register("C31", func(r *Report) {
		r.Rule("composition", "the result equals the reference composition for every list, profile and size")
		r.equivalence("composition", "ListOfProfilesType_AddProfile")
		r.wholeEntries("ListOfProfilesType_AddProfile")
		r.equivalence("composition", "RepresentationType_SetSegmentBase")
		r.Floor("composition", 2)
	})
}

// accessors: exported reading methods of the document model.
func (p *Program) accessors() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		recv := fn.Signature.Recv()
		if recv == nil || fn.Pkg != p.MPD || fn.Object() == nil || !fn.Object().Exported() || fn.Synthetic != "" {
			continue
		}
		n := namedOf(recv.Type())
		if n == nil || !n.Obj().Exported() {
			continue
		}
		switch nm := fn.Name(); {
		case strings.HasPrefix(nm, "Get"), strings.HasPrefix(nm, "Is"), nm == "Parent", nm == "SpliceInfo", nm == "AbsoluteStart", nm == "Seconds", nm == "ConvertToSeconds", nm == "Error",
			nm == "String" && n.Obj().Name() == "PeriodType":
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (r *Report) panicFree(rule string, fn *ssa.Function) {
	name, where := shortFn(fn), r.P.Pos(fn.Pos())
	r.guarded(rule, name, where, func() {
		ev := newEngine(r.P).newEval()
		ev.assumeElems = true
		o := ev.Run(fn, nonNilParams(nil))
		ok := true
		for _, p := range o.panics {
			if w := ev.witness(p.g); w != nil {
				ok = false
				r.Ob(rule, name+": "+p.reason, r.P.Pos(p.pos), false, "%s in %s when %s", p.reason, shortFn(p.in), ev.cubeStr(w))
			}
		}
		if ok {
			r.Ob(rule, name, where, true, "%d candidate sites, none can fail", len(o.panics))
		}
		r.Units["ssa_instructions"] += ev.steps
	})
}

// references lists the functions with a reference definition.
func (p *Program) references() []string {
	var out []string
	for n := range p.MPD.Members {
		if s, ok := strings.CutPrefix(n, specPrefix); ok {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

// wholeEntries: where a list of entries separated by commas is searched for
// one of them as text, what is searched for is delimited on both sides.
func (r *Report) wholeEntries(name string) {
	const rule = "whole-entries"
	r.Rule(rule, "a search of the list's text for an entry is a search for the entry between separators")
	sub := r.P.subject(r.P.MPD, name)
	if sub == nil || len(sub.Params) != 2 {
		r.Undecided(rule, name, "", "function not found")
		return
	}
	where := r.P.Pos(sub.Pos())
	r.guarded(rule, name, where, func() {
		e := newEngine(r.P)
		ev := e.newEval()
		ev.Run(sub, nonNilParams(nil))
		var mentions func(t *Term, p string, d int) bool
		mentions = func(t *Term, p string, d int) bool {
			if t.op == "param" && t.aux == p {
				return true
			}
			for _, a := range t.args {
				if d < 20 && mentions(a, p, d+1) {
					return true
				}
			}
			return false
		}
		comma := func(t *Term, end bool) bool {
			if t.op != "concat" {
				return false
			}
			x := t.args[0]
			if end {
				x = t.args[len(t.args)-1]
			}
			c, ok := x.constStr()
			return ok && (end && strings.HasSuffix(c, ",") || !end && strings.HasPrefix(c, ","))
		}
		n := 0
		bad := ""
		for _, t := range e.terms {
			switch t.op {
			case "slice", "index", "iaddr":
				if x := t.args[0]; (x.op == "param" || x.op == "concat") && mentions(x, "p0", 0) { // looks at the surroundings itself
					r.Undecided(rule, name, where, "the list is taken apart by position")
					return
				}
			case "call":
				if len(t.args) != 2 || !mentions(t.args[0], "p0", 0) || !mentions(t.args[1], "p1", 0) {
					continue
				}
				before, after := comma(t.args[1], false), comma(t.args[1], true)
				switch t.aux {
				case "strings.Index#0", "strings.LastIndex#0", "strings.Count#0":
				case "strings.HasPrefix#0":
					before = true
				case "strings.HasSuffix#0":
					after = true
				default:
					continue
				}
				n++
				if !before || !after {
					bad = t.String()
				}
			}
		}
		r.Ob(rule, name, where, bad == "", "%d searches; not delimited: %s", n, bad)
	})
}

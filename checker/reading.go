package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The reading entry points: what they give to the codec, in which state the
// decoder is, and what becomes of its error.

var readers = []string{"ReadFromFile", "ReadFromString", "MPDFromBytes"}

// faithful: library calls whose (first) result, or the reader they make, holds
// the bytes of the argument named, all of them and nothing else.
var faithful = map[string]bool{
	"bytes.NewReader": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true, "strings.NewReader": true,
	"bufio.NewReader": true, "bufio.NewReaderSize": true, "io.ReadAll": true, "ioutil.ReadAll": true,
	"bytes.Clone": true, "strings.Clone": true, "os.ReadFile": true, "os.Open": true, "ioutil.ReadFile": true,
	"io.NopCloser": true,
}

// calledName: the function a term is the result of, "pkg.Func" or "(*pkg.T).M".
func calledName(t *Term) string {
	s := t.aux
	if t.op == "result" || t.op == "call" || t.op == "event" {
		if i := strings.IndexAny(s, "#@"); i >= 0 {
			s = s[:i]
		}
		return s
	}
	return ""
}

// checkReading decides what an entry point does with the document it is given.
func (r *Report) checkReading(rule, name string) {
	fn := r.P.MPD.Func(name)
	if fn == nil {
		r.Ob(rule, name, "", false, "function not found")
		return
	}
	where := r.P.Pos(fn.Pos())
	r.guarded(rule, name, where, func() {
		ev := newEngine(r.P).newEval()
		ev.modes = func(f *ssa.Function) callMode {
			if f.Pkg == r.P.XML && f.Pkg != nil || strings.HasPrefix(f.Name(), "SetParent") {
				return modeEvent
			}
			return modeDefault
		}
		o := ev.Run(fn, nil)
		B := ev.B
		r.Units["ssa_instructions"] += ev.steps
		ob := func(what string, ok bool, pos, f string, a ...any) {
			r.Ob(rule, name+": "+what, pos, ok, f, a...)
		}
		if len(o.params) != 1 || len(o.results) != 2 {
			ob("signature", false, where, "signature changed: %s", fn.Signature)
			return
		}
		success := B.And(o.ret, ev.isNilValue(o.results[1]))
		if !ev.feasible(success) {
			ob("success", false, where, "never reports success")
			return
		}
		made := map[*Term]*entry{} // results of the calls
		var events []*entry
		for _, en := range o.log {
			if en.kind != eEvent {
				continue
			}
			events = append(events, en)
			for _, v := range append([]Value{en.res}, en.res.agg...) {
				for _, p := range v.parts {
					made[p.t] = en
				}
			}
		}
		in := o.params[0].parts[0].t
		// whole: the term holds the input, all of it.
		var whole func(t *Term, d int) (bool, string)
		whole = func(t *Term, d int) (bool, string) {
			switch {
			case t == in:
				return true, ""
			case d > 12:
				return false, "too deep"
			case t.op == "conv" || t.op == "iface" || t.op == "bytes" || t.op == "str" && len(t.args) == 2:
				return whole(t.args[0], d+1)
			}
			if en := made[t]; en != nil {
				if !faithful[strings.TrimPrefix(en.name, "call ")] || len(en.args) == 0 {
					return false, "what " + en.name + " makes of it"
				}
				for _, p := range en.args[0].parts {
					if ok, why := whole(p.t, d+1); !ok {
						return false, why
					}
				}
				return true, ""
			}
			if n := calledName(t); faithful[n] && len(t.args) > 0 {
				return whole(t.args[0], d+1)
			}
			return false, t.String()
		}
		wholeV := func(v Value) (bool, string) {
			for _, p := range v.parts {
				if ok, why := whole(p.t, 0); !ok {
					return false, why
				}
			}
			return len(v.parts) > 0, "nothing"
		}
		// every error met is returned, and none is invented
		calm := o.ret
		swallowed := false
		for _, en := range events {
			v, ok := errOf(en)
			if !ok || strings.HasSuffix(en.name, "Close") {
				continue
			}
			if w := ev.witness(B.And(success, en.g, B.Not(ev.isNilValue(v)))); w != nil {
				swallowed = true
				ob("errors of "+en.name, false, r.P.Pos(en.pos), "a document is returned without an error although %s failed", en.name)
			}
			calm = B.And(calm, B.Or(B.Not(en.g), ev.isNilValue(v)))
		}
		if !swallowed {
			ob("errors reach the caller", true, where, "%d calls", len(events))
		}
		calm = B.And(calm, B.Not(ev.isNilValue(o.results[1])))
		// nothing can be read from nothing
		calm = B.And(calm, B.Not(ev.le0(toLin(ev.mk("len", "", types.Typ[types.Int], in)))))
		if w := ev.witness(calm); w != nil {
			ob("no invented error", false, where, "a document is rejected although nothing failed, when %s", ev.cubeStr(w))
		} else {
			ob("no invented error", true, where, "an error is returned only where a call failed")
		}
		for _, en := range o.log {
			if en.kind == eStore && en.addr != nil && en.addr.op == "iaddr" {
				if ok, _ := whole(en.addr.args[0], 0); ok {
					ob("input unchanged", false, r.P.Pos(en.pos), "the input is written to")
				}
			}
		}
		// what is decoded, from what, into what
		got := bFalse
		bad := false
		n := 0
		for _, en := range events {
			if en.fn == nil || en.fn.Pkg != r.P.XML {
				continue
			}
			pos := r.P.Pos(en.pos)
			var target Value
			switch en.fn.Name() {
			case "Unmarshal":
				if ok, why := wholeV(en.args[0]); !ok {
					ob("whole input", false, pos, "the codec is given something else than the input: %s", why)
					bad = true
				}
				target = en.args[1]
			case "Decode", "DecodeElement":
				for _, p := range en.args[0].parts {
					mk := made[p.t]
					if mk == nil || mk.fn == nil || mk.fn.Pkg != r.P.XML || mk.fn.Name() != "NewDecoder" {
						ob("fresh decoder", false, pos, "the decoder is not one made for this document")
						bad = true
						continue
					}
					if ok, why := wholeV(mk.args[0]); !ok {
						ob("whole input", false, pos, "the codec is given something else than the input: %s", why)
						bad = true
					}
				}
				target = en.args[1]
			default:
				continue
			}
			n++
			if len(en.loops) > 0 || ev.feasible(B.And(got, en.g)) {
				ob("decoded once", false, pos, "the document is decoded more than once")
				bad = true
			}
			got = B.Or(got, en.g)
			for _, p := range target.parts {
				t := p.t
				if t.op == "iface" {
					t = t.args[0]
				}
				for _, q := range o.results[0].parts {
					if q.t != t && ev.feasible(B.And(success, B.And(en.g, B.And(p.g, q.g)))) {
						ob("decoded document returned", false, pos, "%s is returned, not what was decoded", q.t.String())
						bad = true
					}
				}
			}
		}
		if w := ev.witness(B.And(success, B.Not(got))); w != nil {
			ob("decoded", false, where, "success is reported without decoding the input")
			bad = true
		}
		if !bad {
			ob("whole input decoded", true, where, "one decoding of the whole input into the document returned, at %d sites", n)
		}
		if w := ev.witness(B.And(o.ret, B.And(B.Not(ev.isNilValue(o.results[1])), B.Not(ev.isNilValue(o.results[0]))))); w != nil {
			ob("no document with an error", false, where, "a document is returned together with an error")
		} else {
			ob("no document with an error", true, where, "the document is nil whenever there is an error")
		}
	})
}

// decoderConfig: the fields of the decoder its user may set.
func (r *Report) decoderConfig(rule string) {
	tn, ok := r.P.XML.Pkg.Scope().Lookup("Decoder").(*types.TypeName)
	if !ok {
		r.Ob(rule, "Decoder", "", false, "type not found")
		return
	}
	st := asStruct(tn.Type())
	var fns []*ssa.Function
	for _, f := range r.P.Funcs {
		if f.Pkg == r.P.MPD && !strings.HasPrefix(f.Name(), specPrefix) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	n, bad := 0, 0
	for _, f := range fns {
		n++
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), tn.Type()) {
					continue
				}
				for _, ref := range *fa.Referrers() {
					s, ok := ref.(*ssa.Store)
					if !ok || s.Addr != fa {
						continue
					}
					if c, ok := s.Val.(*ssa.Const); ok && st.Field(fa.Field).Name() == "Strict" && c.Value != nil && c.Value.String() == "true" {
						continue
					}
					bad++
					r.Ob(rule, f.Name()+": Decoder."+st.Field(fa.Field).Name(), r.P.Pos(s.Pos()), false, "documents are read by a decoder that is set up otherwise than the strict one: %s is changed", st.Field(fa.Field).Name())
				}
			}
		}
	}
	if bad == 0 {
		r.Ob(rule, "package mpd", "", true, "none of %d functions changes the decoder's configuration", n)
	}
}

func (r *Report) reading() {
	r.Rule("reading", "the reading functions of package mpd hand the whole input to the codec once, return the document decoded with no error, return every error of a call and no document with it, and fail only where a call failed")
	r.Rule("strict-decoder", "no function of package mpd changes the configuration (Strict, AutoClose, Entity, CharsetReader, DefaultSpace) of the decoder it reads documents with")
	for _, n := range readers {
		r.checkReading("reading", n)
	}
	r.decoderConfig("strict-decoder")
	r.Floor("reading", 12)
	r.Floor("strict-decoder", 1)
}

func init() {
	register("C34", func(r *Report) { r.reading() })
	for _, id := range []string{"C19", "C25", "C28"} {
		f := codecRules[id]
		codecRules[id] = func(r *Report) {
			if f != nil {
				f(r)
			}
			r.reading()
		}
	}
}

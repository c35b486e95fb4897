package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const xmlHeader = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"

// quietXML: codec entry points that set up or tear down an encoder without
// writing to its destination; the claim is checked by noWrites.
var quietXML = map[string]bool{"AcquireEncoder": true, "ReleaseEncoder": true, "NewEncoder": true, "Indent": true, "Reset": true}

func hasConst(t *Term, s string, d int) bool {
	if c, ok := t.constStr(); ok && c == s {
		return true
	}
	if d > 10 {
		return false
	}
	for _, a := range t.args {
		if hasConst(a, s, d+1) {
			return true
		}
	}
	return false
}

// errOf is the error result of an event, if it has one.
func errOf(en *entry) (Value, bool) {
	if en.res.isAgg() {
		n := len(en.res.agg)
		if n == 0 {
			return Value{}, false
		}
		v := en.res.agg[n-1]
		for _, p := range v.parts {
			return v, p.t.typ != nil && isErrorType(p.t.typ)
		}
		return Value{}, false
	}
	for _, p := range en.res.parts {
		return en.res, p.t.typ != nil && isErrorType(p.t.typ)
	}
	return Value{}, false
}

// writeSig: the signature of io.Writer's Write.
func writeSig(s *types.Signature) bool {
	if s.Params().Len() != 1 || s.Results().Len() != 2 {
		return false
	}
	sl, ok := s.Params().At(0).Type().Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), types.Typ[types.Byte]) && isErrorType(s.Results().At(1).Type())
}

// checkWriter decides the contract of WriteXML.
func (r *Report) checkWriter() {
	fn := r.P.MPD.Func("WriteXML")
	if fn == nil {
		r.Ob("write-contract", "WriteXML", "", false, "function not found")
		return
	}
	where := r.P.Pos(fn.Pos())
	r.guarded("write-contract", "WriteXML", where, func() {
		ev := newEngine(r.P).newEval()
		ev.modes = func(f *ssa.Function) callMode {
			if f.Name() == "Write" && f.Pkg == r.P.MPD && f.Signature.Recv() != nil && writeSig(f.Signature) {
				return modeEvent
			}
			return r.P.codecOpaque(f)
		}
		o := ev.Run(fn, nil)
		B := ev.B
		ob := func(what string, ok bool, pos, f string, a ...any) {
			r.Ob("write-contract", "WriteXML: "+what, pos, ok, f, a...)
		}
		if len(o.params) != 4 || len(o.results) != 2 {
			ob("signature", false, where, "signature changed: %s", fn.Signature)
			return
		}
		success := B.And(o.ret, ev.isNilValue(o.results[1]))
		if !ev.feasible(success) {
			ob("success", false, where, "never reports success")
			return
		}
		hdr := B.And(bTrue, ev.truth(o.params[3]))
		type step struct {
			en *entry
			i  int
		}
		var events []step
		for i, en := range o.log {
			if en.kind == eEvent && en.havoc {
				events = append(events, step{en, i})
			}
		}
		xmlEvent := func(en *entry, name string) bool {
			return en.fn != nil && en.fn.Pkg == r.P.XML && en.fn.Name() == name
		}
		// destination given to the encoder
		var sink *Term
		for _, s := range events {
			if s.en.fn != nil && s.en.fn.Pkg == r.P.XML && (s.en.fn.Name() == "AcquireEncoder" || s.en.fn.Name() == "NewEncoder") {
				for _, p := range s.en.args[0].parts {
					if sink != nil && sink != p.t {
						ob("one destination", false, r.P.Pos(s.en.pos), "several destinations")
						return
					}
					sink = p.t
				}
			}
		}
		if sink == nil {
			ob("one destination", false, where, "no encoder is set up on a destination")
			return
		}
		// errors are not swallowed
		swallowed := false
		for _, s := range events {
			v, ok := errOf(s.en)
			if !ok {
				continue
			}
			if w := ev.witness(B.And(success, s.en.g, B.Not(ev.isNilValue(v)))); w != nil {
				swallowed = true
				ob("errors of "+s.en.name, false, r.P.Pos(s.en.pos), "success is reported although %s failed", s.en.name)
			}
		}
		ob("errors reach the caller", !swallowed, where, "%d fallible calls", len(events))
		// and no error is invented
		calm := o.ret
		for _, s := range events {
			if v, ok := errOf(s.en); ok {
				calm = B.And(calm, B.Or(B.Not(s.en.g), ev.isNilValue(v)))
			}
		}
		if w := ev.witness(B.And(calm, B.Not(ev.isNilValue(o.results[1])))); w != nil {
			ob("no invented error", false, where, "an error is returned although nothing failed")
		}
		// what was delivered on success
		find := func(what string, need BDD, after int, pred func(en *entry) bool) int {
			got := bFalse
			at := -1
			for _, s := range events {
				if s.i <= after || !pred(s.en) {
					continue
				}
				if len(s.en.loops) > 0 {
					ob(what, false, r.P.Pos(s.en.pos), "done repeatedly")
					return -1
				}
				if ev.feasible(B.And(got, s.en.g)) {
					ob(what, false, r.P.Pos(s.en.pos), "done more than once")
					return -1
				}
				got = B.Or(got, s.en.g)
				if at < 0 {
					at = s.i
				}
			}
			if w := ev.witness(B.And(success, need, B.Not(got))); w != nil {
				ob(what, false, where, "success is reported without it when %s", ev.cubeStr(w))
				return -1
			}
			ob(what, true, where, "always done before success is reported")
			return at
		}
		isHeader := func(en *entry) bool {
			for _, a := range en.args {
				for _, p := range a.parts {
					if hasConst(p.t, xmlHeader, 0) {
						return true
					}
				}
			}
			return false
		}
		h := find("header written when asked for", hdr, -1, isHeader)
		for _, s := range events {
			if isHeader(s.en) {
				if w := ev.witness(B.And(s.en.g, B.Not(hdr))); w != nil {
					ob("header only when asked for", false, r.P.Pos(s.en.pos), "the header is written without being asked for")
				}
				toSink := false
				for _, p := range s.en.args[0].parts {
					toSink = toSink || p.t == sink || sink.op == "iface" && p.t == sink.args[0] || p.t == o.params[1].parts[0].t || p.t.op == "load" && p.t.args[0].op == "faddr"
				}
				if !toSink {
					ob("header destination", false, r.P.Pos(s.en.pos), "the header goes elsewhere")
				}
			}
		}
		sameEnc := func(en *entry) bool {
			for _, p := range en.args[0].parts {
				if p.t.op != "result" || !strings.HasPrefix(p.t.aux, "xml.AcquireEncoder#") && !strings.HasPrefix(p.t.aux, "xml.NewEncoder#") {
					return false
				}
			}
			return len(en.args[0].parts) > 0
		}
		e := find("element encoded", bTrue, h, func(en *entry) bool {
			return xmlEvent(en, "Encode") && sameEnc(en) && sameTerm(en.args[1], o.params[0].parts[0].t)
		})
		if e >= 0 {
			find("rest flushed", bTrue, e, func(en *entry) bool {
				return (xmlEvent(en, "Flush") || xmlEvent(en, "Close")) && sameEnc(en)
			})
		}
		r.checkCount(o, sink, ob)
		r.Units["ssa_instructions"] += ev.steps
	})
}

// checkCount: the returned count is the counter of the counting destination.
func (r *Report) checkCount(o *Outcome, sink *Term, ob func(string, bool, string, string, ...any)) {
	ev := o.Eval
	where := r.P.Pos(o.fn.Pos())
	if sink.op != "iface" || sink.args[0].op != "alloc" {
		ob("count", false, where, "the destination %s is not a counting writer created here", sink)
		return
	}
	obj := sink.args[0]
	named := namedOf(sink.ctyp)
	if named == nil {
		ob("count", false, where, "the destination has no named type")
		return
	}
	cf, wf, bad := r.countingMethod(sink.ctyp, named, "Write")
	if cf < 0 && bad == "" {
		ob("count", false, where, "no Write method of %s to analyse", named.Obj().Name())
		return
	}
	if bad != "" {
		return
	}
	// the ways round Write that io's helpers take where they exist
	for _, n := range []string{"WriteString", "WriteByte", "ReadFrom"} {
		if c, w, bad := r.countingMethod(sink.ctyp, named, n); bad == "" && c >= 0 && (c != cf || w != wf) {
			r.Ob("counting-writer", named.Obj().Name()+"."+n, where, false, "it counts or writes elsewhere than Write does")
		}
	}
	ca, wa := ev.faddr(obj, named, cf), ev.faddr(obj, named, wf)
	// set up with the caller's writer and a zero counter
	okW := false
	for _, en := range o.log {
		if en.kind == eStore && en.addr == wa {
			okW = sameTerm(en.val, o.params[1].parts[0].t)
		}
		if en.kind == eStore && en.addr == ca && !sameTerm(en.val, ev.Int(0)) {
			ob("counter untouched", false, r.P.Pos(en.pos), "the counter is set to %v", en.val.parts)
		}
	}
	ob("counts the caller's writer", okW, where, "the counting writer wraps the destination passed in")
	// result 0 is the counter after the last write
	cbad := ""
	for _, p := range o.results[0].parts {
		g := ev.B.And(o.ret, p.g)
		if !ev.feasible(g) {
			continue
		}
		last := -1
		if c, ok := p.t.constInt(); ok && c == 0 {
			last = -1
		} else if p.t.op == "load" && p.t.args[0] == ca {
			for i, en := range o.log {
				if en.kind == eEvent && en.epoch == p.t.args[1] {
					last = i
				}
			}
			if last < 0 {
				cbad = "the count is read before anything was written"
				break
			}
		} else {
			cbad = "the count returned is " + p.t.String()
			break
		}
		for i, en := range o.log {
			if i <= last || en.kind != eEvent || !en.havoc || en.fn != nil && en.fn.Pkg == r.P.XML && quietXML[en.fn.Name()] {
				continue
			}
			if ev.feasible(ev.B.And(g, en.g)) {
				cbad = "the count does not include what " + en.name + " at " + r.P.Pos(en.pos) + " wrote"
			}
		}
	}
	ob("byte count", cbad == "", where, "%s", orText(cbad, "on every return the count is the counter after the last write"))
}

// noWrites: the named codec functions cannot reach a write to the destination.
func (r *Report) noWrites(rule string, names ...string) {
	for _, n := range names {
		fn := r.P.subject(r.P.XML, n)
		if fn == nil {
			r.Ob(rule, n, "", false, "function not found")
			continue
		}
		seen := map[*ssa.Function]bool{}
		hit := ""
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if seen[f] || hit != "" {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok {
						walk(mc.Fn.(*ssa.Function))
					}
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := c.Common()
					if cc.IsInvoke() {
						if strings.HasPrefix(cc.Method.Name(), "Write") || cc.Method.Name() == "Flush" {
							hit = r.P.Pos(in.Pos())
						}
						continue
					}
					if callee := cc.StaticCallee(); callee != nil {
						if pkgPathOf(callee) == "bufio" || pkgPathOf(callee) == "io" {
							if strings.HasPrefix(callee.Name(), "Write") || callee.Name() == "Flush" || strings.HasPrefix(callee.Name(), "Copy") || callee.Name() == "ReadFrom" {
								hit = r.P.Pos(in.Pos())
							}
							continue
						}
						if r.P.InModule(callee) {
							walk(callee)
						}
					}
				}
			}
		}
		walk(fn)
		r.Ob(rule, n, r.P.Pos(fn.Pos()), hit == "", "%s", orText(hit, "no write to the destination reachable")+"")
	}
}

// countingMethod: the method of a counting writer passes what it is given on to
// the wrapped writer and adds what that accepted to the counter; the fields of
// the counter and of the wrapped writer, -1 where there is no such method.
func (r *Report) countingMethod(typ types.Type, named *types.Named, name string) (cf, wf int, bad string) {
	var wm *ssa.Function
	if s := r.P.Prog.MethodSets.MethodSet(typ).Lookup(named.Obj().Pkg(), name); s != nil {
		wm = r.P.Prog.MethodValue(s)
	}
	if wm == nil || len(wm.Blocks) == 0 {
		return -1, -1, ""
	}
	wev := newEngine(r.P).newEval()
	wo := wev.Run(wm, nonNilParams(nil))
	wpos := r.P.Pos(wm.Pos())
	recv := wo.params[0].parts[0].t
	var inner *entry
	n := 0
	for _, en := range wo.log {
		if en.kind == eEvent && en.havoc {
			inner = en
			n++
		}
	}
	cf, wf = -1, -1
	switch {
	case n != 1 || !(inner.name == "invoke io.Writer.Write" || inner.name == "invoke Write" || name == "WriteString" && inner.name == "io.WriteString"):
		bad = "it does not make exactly one Write call on the wrapped writer"
	case !sameTerm(inner.args[1], wo.params[1].parts[0].t) && !(name == "WriteString" && sameTerm(inner.args[1], wev.mk("bytes", "", nil, wo.params[1].parts[0].t))):
		bad = "the wrapped writer gets other bytes"
	case wev.witness(wev.B.And(wo.ret, wev.B.Not(inner.g))) != nil:
		bad = "the wrapped writer is not always called"
	case len(inner.res.agg) != 2 || !sameTerm(wo.results[0], inner.res.agg[0].parts[0].t) || !sameTerm(wo.results[1], inner.res.agg[1].parts[0].t):
		bad = "it does not return what the wrapped writer returned"
	default:
		st := asStruct(named)
		for _, p := range inner.args[0].parts {
			if p.t.op == "load" && p.t.args[0].op == "faddr" && p.t.args[0].args[0] == recv {
				for i := 0; i < st.NumFields(); i++ {
					if p.t.args[0] == wev.faddr(recv, named, i) {
						wf = i
					}
				}
			}
		}
		if wf < 0 {
			bad = "the wrapped writer is not a field"
			break
		}
		res0 := inner.res.agg[0].parts[0].t
		for _, en := range wo.log {
			if en.kind != eStore {
				continue
			}
			idx := -1
			for i := 0; i < st.NumFields(); i++ {
				if en.addr == wev.faddr(recv, named, i) {
					idx = i
				}
			}
			if idx < 0 {
				continue
			}
			ok := len(en.val.parts) == 1
			if ok {
				d := toLin(en.val.parts[0].t).add(toLin(res0), -1)
				ok = len(d.c) == 1 && d.k == 0
				for t, c := range d.c {
					ok = ok && c == 1 && t.op == "load" && t.args[0] == en.addr
				}
			}
			if idx == wf || cf >= 0 || !ok || wev.witness(wev.B.And(wo.ret, wev.B.Not(en.g))) != nil {
				bad = "the counter is not increased by exactly the accepted bytes at " + r.P.Pos(en.pos)
				break
			}
			cf = idx
		}
		if cf < 0 && bad == "" {
			bad = "nothing is counted"
		}
	}
	r.Ob("counting-writer", named.Obj().Name()+"."+name, wpos, bad == "", "%s", orText(bad, "adds exactly the bytes the wrapped writer accepted and returns its results"))
	return cf, wf, bad
}

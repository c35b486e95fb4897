package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about state that outlives a call: the encoder pool and the
// package-level variables.

// ---- pool ----

type leafAddr struct {
	path string
	a    *Term
	t    types.Type
}

// leavesAt lists the scalar parts of the struct at base.
func (ev *Eval) leavesAt(base *Term, t types.Type, path string) []leafAddr {
	st := asStruct(t)
	if st == nil || namedOf(t) != nil && namedOf(t).Obj().Pkg() != nil && !ev.P.isOwn(namedOf(t).Obj().Pkg()) {
		return []leafAddr{{path, base, t}}
	}
	var out []leafAddr
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		p := f.Name()
		if path != "" {
			p = path + "." + p
		}
		out = append(out, ev.leavesAt(ev.faddr(base, t, i), f.Type(), p)...)
	}
	return out
}

func (p *Program) isOwn(pk *types.Package) bool { return pk == p.XML.Pkg || pk == p.MPD.Pkg }

// initial: the value is the zero value (an empty list counts) whenever g holds.
func (ev *Eval) initial(g BDD, v Value, t types.Type) (bool, string) {
	z := ev.zero(t)
	if v.isAgg() {
		for i, x := range v.agg {
			var xt types.Type
			if st := asStruct(t); st != nil && i < st.NumFields() {
				xt = st.Field(i).Type()
			}
			if xt == nil {
				return false, "an aggregate"
			}
			if ok, d := ev.initial(g, x, xt); !ok {
				return false, d
			}
		}
		return true, ""
	}
	for _, p := range v.parts {
		c := ev.B.And(g, p.g)
		if c == bFalse || !ev.feasible(c) {
			continue
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			if ev.witness(ev.B.And(c, ev.B.Not(ev.eqTerms(ev.lenT(p.t, t), ev.Int(0))))) == nil {
				continue
			}
			return false, p.t.String()
		}
		ne := ev.B.And(c, ev.B.Not(ev.eqTerms(p.t, z.parts[0].t)))
		if ev.witness(ne) != nil {
			return false, p.t.String()
		}
	}
	return true, ""
}

func (r *Report) checkPool() {
	r.Rule("pool-reset", "every field of a pooled encoder has the value a new one starts with, or the one the caller asked for: reset before it is put back or when it is taken out again")
	r.Rule("pool-new", "the pool creates encoders in the state a new encoder has")
	r.Rule("pool-use", "an acquired encoder is put back at most once and not used afterwards")
	acq, rel := r.P.XML.Func("AcquireEncoder"), r.P.XML.Func("ReleaseEncoder")
	enc := r.P.Named(r.P.XML, "Encoder")
	if acq == nil || rel == nil || enc == nil {
		r.Undecided("pool-reset", "AcquireEncoder", "", "no pool found")
		return
	}
	r.guarded("pool-reset", "Encoder", r.P.Pos(rel.Pos()), func() { r.poolReset(acq, rel, enc) })
	r.poolNew(enc)
	n := 0
	for _, fn := range r.P.Funcs {
		if isSpecFunc(fn) || fn == acq || !r.P.InModule(fn) {
			continue
		}
		for _, c := range r.P.calleesOf(fn) {
			if c == acq {
				n++
				r.guarded("pool-use", shortFn(fn), r.P.Pos(fn.Pos()), func() { r.poolUse(fn, acq, rel) })
				break
			}
		}
	}
	r.Units["functions_acquiring_an_encoder"] = n
}

func isPoolCall(en *entry, name string) bool {
	return en.kind == eEvent && en.fn != nil && en.fn.Name() == name && en.fn.Signature.Recv() != nil && isNamed(deref(en.fn.Signature.Recv().Type()), "sync", "Pool")
}

func isBufReset(en *entry) bool {
	return en.kind == eEvent && en.fn != nil && en.fn.Name() == "Reset" && en.fn.Signature.Recv() != nil && isNamed(deref(en.fn.Signature.Recv().Type()), "bufio", "Writer")
}

func (r *Report) poolReset(acq, rel *ssa.Function, enc *types.Named) {
	where := r.P.Pos(rel.Pos())
	// taken out
	ea := newEngine(r.P).newEval()
	oa := ea.Run(acq, nil)
	fresh := map[string]string{} // field -> problem, "" when fine
	var wOK string
	for _, p := range oa.results[0].parts {
		g := ea.B.And(oa.ret, p.g)
		if !ea.feasible(g) {
			continue
		}
		for _, l := range ea.leavesAt(p.t, enc, "") {
			if ok, d := ea.initial(g, ea.loadLeaf(g, l.a, l.t, len(ea.log)), l.t); !ok {
				fresh[l.path] = d
			} else if _, bad := fresh[l.path]; !bad {
				fresh[l.path] = ""
			}
			if isNamed(deref(l.t), "bufio", "Writer") {
				if wOK == "" {
					wOK = "no buffered writer"
				}
				cov := bFalse
				bad := false
				for _, en := range ea.log {
					if isBufReset(en) {
						w := ea.loadLeaf(g, l.a, l.t, len(ea.log))
						if len(en.args) == 2 && sameTerms(en.args[0], w) && sameTerms(en.args[1], oa.params[0]) {
							cov = ea.B.Or(cov, en.g)
						} else if ea.feasible(ea.B.And(g, en.g)) {
							bad = true
						}
					}
				}
				// or replaced altogether
				w := ea.loadLeaf(g, l.a, l.t, len(ea.log))
				if len(w.parts) > 0 && strings.HasPrefix(w.parts[0].t.aux, "bufio.NewWriter") {
					wOK = "ok"
					continue
				}
				switch {
				case bad:
					wOK = "the buffered writer is also pointed elsewhere"
				case ea.witness(ea.B.And(g, ea.B.Not(cov))) != nil:
					wOK = "the buffered writer is not always pointed at the new destination"
				default:
					wOK = "ok"
				}
			}
		}
	}
	r.Ob("pool-reset", "AcquireEncoder: destination", r.P.Pos(acq.Pos()), wOK == "ok", "%s", wOK)
	// put back
	er := newEngine(r.P).newEval()
	or := er.Run(rel, nonNilParams(nil))
	put := -1
	for i, en := range er.log {
		if isPoolCall(en, "Put") {
			if put >= 0 {
				r.Ob("pool-use", "ReleaseEncoder", r.P.Pos(en.pos), false, "put back twice")
				return
			}
			put = i
		}
	}
	if put < 0 {
		r.Ob("pool-use", "ReleaseEncoder", where, true, "nothing is put back")
		return
	}
	g := er.B.And(or.ret, er.log[put].g)
	base := or.params[0].parts[0].t
	for i, en := range er.log {
		if i > put && (en.kind == eStore && rootOf(en.addr) == base || isBufReset(en)) && er.feasible(er.B.And(g, en.g)) {
			r.Ob("pool-use", "ReleaseEncoder", r.P.Pos(en.pos), false, "the encoder is changed after it was put back")
		}
	}
	r.Ob("pool-use", "ReleaseEncoder", where, true, "put back last")
	for _, l := range er.leavesAt(base, enc, "") {
		v := er.loadLeaf(g, l.a, l.t, put)
		if isNamed(deref(l.t), "bufio", "Writer") {
			cov, late := bFalse, false
			for i, en := range er.log {
				if isBufReset(en) && sameTerms(en.args[0], v) {
					_, own := argRoots(en.args[1])[base]
					if i < put && !own {
						cov = er.B.Or(cov, en.g)
					} else {
						late = true
					}
				}
			}
			ok := !late && er.witness(er.B.And(g, er.B.Not(cov))) == nil
			if !ok {
				if z, _ := er.initial(g, v, l.t); z {
					ok = true
				}
			}
			r.Ob("pool-reset", l.path, where, ok, "%s", orText(map[bool]string{true: "", false: "a released encoder may keep the previous destination"}[ok], "detached from the destination"))
			continue
		}
		if p, ok := l.t.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), enc) {
			// the back reference stays
			same := true
			for _, x := range v.parts {
				if x.t != base && !(x.t.op == "load" && x.t.args[0] == l.a) && er.feasible(er.B.And(g, x.g)) {
					same = false
				}
			}
			r.Ob("pool-reset", l.path, where, same, "back reference kept")
			continue
		}
		ok, d := er.initial(g, v, l.t)
		if !ok {
			if prob, known := fresh[l.path]; known && prob == "" {
				ok = true
			}
		}
		r.Ob("pool-reset", l.path, where, ok, "%s", orText(map[bool]string{true: "", false: "keeps " + d + " for the next user"}[ok], "initial value for the next user"))
	}
}

func argRoots(v Value) map[*Term]bool {
	m := map[*Term]bool{}
	for _, p := range v.parts {
		m[rootOf(p.t)] = true
	}
	return m
}

func sameTerms(a, b Value) bool {
	if len(a.parts) == 0 || len(b.parts) == 0 {
		return false
	}
	for _, p := range a.parts {
		for _, q := range b.parts {
			if p.t != q.t {
				return false
			}
		}
	}
	return true
}

// poolNew: the pool's New function.
func (r *Report) poolNew(enc *types.Named) {
	found := false
	for _, fn := range r.P.Funcs {
		if fn.Pkg != r.P.XML || fn.Parent() == nil || fn.Parent().Name() != "init" || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
			continue
		}
		r.guarded("pool-new", fn.Name(), r.P.Pos(fn.Pos()), func() {
			ev := newEngine(r.P).newEval()
			o := ev.Run(fn, nil)
			for _, p := range o.results[0].parts {
				t := p.t
				if t.op == "iface" {
					t = t.args[0]
				}
				if t.op != "alloc" || !types.Identical(deref(t.typ), enc) {
					continue
				}
				found = true
				for _, l := range ev.leavesAt(t, enc, "") {
					v := ev.loadLeaf(o.ret, l.a, l.t, len(ev.log))
					if isNamed(deref(l.t), "bufio", "Writer") {
						continue
					}
					if pt, ok := l.t.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), enc) {
						ok := len(v.parts) == 1 && v.parts[0].t == t
						r.Ob("pool-new", l.path, r.P.Pos(fn.Pos()), ok, "refers to the encoder itself")
						continue
					}
					ok, d := ev.initial(o.ret, v, l.t)
					r.Ob("pool-new", l.path, r.P.Pos(fn.Pos()), ok, "%s", orText(d, "initial value"))
				}
			}
		})
	}
	if !found {
		r.Undecided("pool-new", "New", "", "no function creating pooled encoders found")
	}
}

func (r *Report) poolUse(fn, acq, rel *ssa.Function) {
	ev := newEngine(r.P).newEval()
	ev.modes = func(f *ssa.Function) callMode {
		if f.Pkg == r.P.XML {
			return modeEvent
		}
		return modeDefault
	}
	o := ev.Run(fn, nonNilParams(nil))
	where := r.P.Pos(fn.Pos())
	isEnc := func(v Value) bool {
		for _, p := range v.parts {
			t := p.t
			for t.op == "iface" && len(t.args) > 0 {
				t = t.args[0]
			}
			if strings.Contains(rootOf(t).aux, "AcquireEncoder#") {
				return true
			}
		}
		return false
	}
	ok := true
	for i, en := range ev.log {
		if en.kind != eEvent || en.fn != rel || !isEnc(en.args[0]) {
			continue
		}
		if len(en.loops) > 0 {
			ok = false
			r.Ob("pool-use", shortFn(fn), r.P.Pos(en.pos), false, "the encoder is put back repeatedly")
		}
		for _, x := range ev.log[i+1:] {
			if !ev.feasible(ev.B.And(en.g, x.g)) {
				continue
			}
			use := false
			switch x.kind {
			case eEvent:
				for _, a := range x.args {
					use = use || isEnc(a)
				}
			case eStore:
				use = strings.Contains(rootOf(x.addr).aux, "AcquireEncoder#")
			}
			if use {
				ok = false
				what := "used after it was put back"
				if x.fn == rel {
					what = "put back twice"
				}
				r.Ob("pool-use", shortFn(fn), r.P.Pos(x.pos), false, "the encoder is %s", what)
			}
		}
		for k, res := range o.results {
			if isEnc(res) {
				ok = false
				r.Ob("pool-use", shortFn(fn), where, false, "result %d is the encoder that was put back", k)
			}
		}
	}
	if ok {
		r.Ob("pool-use", shortFn(fn), where, true, "put back at most once, not used afterwards")
	}
}

// ---- package-level state ----

type sharedInfo struct {
	p       *Program
	writes  map[*ssa.Function]map[int]token.Pos // parameter written through
	returns map[*ssa.Function]bool              // result is shared memory
}

// safeType: values of the type synchronise themselves or never change.
func safeType(t types.Type) bool {
	n := namedOf(deref(t))
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "regexp", "reflect", "log", "log/slog", "text/template", "html/template", "time":
		return true
	case "strings":
		return n.Obj().Name() == "Replacer"
	}
	return false
}

// origin of a reference: a package-level variable (or a cache kept in one), a
// parameter, or an allocation.
type memOrigin struct {
	global string
	param  int // -1 none
	alloc  *ssa.Alloc
}

func (s *sharedInfo) origin(v ssa.Value, seen map[ssa.Value]bool) []memOrigin {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Global:
		if safeType(x.Type()) || x.Pkg == nil || !s.p.isOwn(x.Pkg.Pkg) {
			return nil
		}
		return []memOrigin{{global: x.Name(), param: -1}}
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x {
				return []memOrigin{{param: i}}
			}
		}
	case *ssa.Alloc:
		return []memOrigin{{param: -1, alloc: x}}
	case *ssa.FieldAddr:
		return s.origin(x.X, seen)
	case *ssa.IndexAddr:
		return s.origin(x.X, seen)
	case *ssa.Field:
		return s.origin(x.X, seen)
	case *ssa.Index:
		return s.origin(x.X, seen)
	case *ssa.Lookup:
		return s.origin(x.X, seen)
	case *ssa.Slice:
		return s.origin(x.X, seen)
	case *ssa.ChangeType:
		return s.origin(x.X, seen)
	case *ssa.ChangeInterface:
		return s.origin(x.X, seen)
	case *ssa.MakeInterface:
		return s.origin(x.X, seen)
	case *ssa.TypeAssert:
		return s.origin(x.X, seen)
	case *ssa.Extract:
		return s.origin(x.Tuple, seen)
	case *ssa.Phi:
		var out []memOrigin
		for _, e := range x.Edges {
			out = append(out, s.origin(e, seen)...)
		}
		return out
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		if !holdsReference(x.Type()) {
			return nil
		}
		os := s.origin(x.X, seen)
		// what a local variable holds is not part of the variable
		var out []memOrigin
		for _, o := range os {
			if o.alloc != nil {
				if o.alloc == rootAlloc(x.X) && directVar(x.X) {
					for _, ref := range *o.alloc.Referrers() {
						if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(o.alloc) {
							out = append(out, s.origin(st.Val, seen)...)
						}
					}
				}
				continue
			}
			out = append(out, o)
		}
		return out
	case *ssa.Call:
		cc := x.Common()
		f := cc.StaticCallee()
		if f == nil {
			if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return s.origin(cc.Args[0], seen)
			}
			return nil
		}
		if rv := f.Signature.Recv(); rv != nil && isNamed(deref(rv.Type()), "sync", "Map") {
			switch f.Name() {
			case "Load", "LoadOrStore", "Swap":
				return []memOrigin{{global: "a sync.Map", param: -1}}
			}
			return nil
		}
		if s.returns[f] && holdsReferenceOrTuple(x.Type()) {
			return []memOrigin{{global: "a cache (" + shortFn(f) + ")", param: -1}}
		}
	}
	return nil
}

func directVar(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func holdsReference(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return true
	case *types.Struct:
		return false
	}
	return false
}

func holdsReferenceOrTuple(t types.Type) bool {
	if tu, ok := t.(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			if holdsReference(tu.At(i).Type()) && !isErrorType(tu.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return holdsReference(t)
}

// sharedWrite is one write with the reference it goes through.
type sharedWrite struct {
	in   ssa.Instruction
	to   ssa.Value
	what string
}

func (s *sharedInfo) writesOf(fn *ssa.Function) []sharedWrite {
	var out []sharedWrite
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				out = append(out, sharedWrite{in, x.Addr, "a store"})
			case *ssa.MapUpdate:
				out = append(out, sharedWrite{in, x.Map, "a map update"})
			case ssa.CallInstruction:
				cc := x.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "delete", "clear", "copy":
						out = append(out, sharedWrite{in, cc.Args[0], b.Name()})
					case "append":
						if sl, ok := cc.Args[0].(*ssa.Slice); ok && sl.Max != nil {
							continue
						}
						out = append(out, sharedWrite{in, cc.Args[0], "an append in place"})
					}
					continue
				}
				f := cc.StaticCallee()
				if f == nil {
					continue
				}
				if s.p.InModule(f) {
					for i := range cc.Args {
						if _, ok := s.writes[f][i]; ok {
							out = append(out, sharedWrite{in, cc.Args[i], "a call of " + shortFn(f) + ", which writes there,"})
						}
					}
					continue
				}
				pp := pkgPathOf(f)
				for i, a := range cc.Args {
					if !isByteSlice(a.Type()) {
						continue
					}
					if i == 0 && (strings.HasPrefix(f.Name(), "Append") || strings.HasPrefix(f.Name(), "Put") || strings.HasPrefix(f.Name(), "Encode")) ||
						pp == "io" && strings.HasPrefix(f.Name(), "Read") || i == 1 && f.Signature.Recv() != nil && strings.HasPrefix(f.Name(), "Read") {
						out = append(out, sharedWrite{in, a, "a call of " + shortFn(f)})
					}
				}
				if (pp == "sort" || pp == "slices" && (strings.HasPrefix(f.Name(), "Sort") || f.Name() == "Reverse")) && len(cc.Args) > 0 {
					out = append(out, sharedWrite{in, cc.Args[0], "a call of " + shortFn(f)})
				}
				if rv := f.Signature.Recv(); rv != nil {
					if _, isPtr := rv.Type().(*types.Pointer); isPtr && !safeType(rv.Type()) {
						n := namedOf(deref(rv.Type()))
						if n != nil && n.Obj().Pkg() != nil {
							switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
							case "bytes.Buffer", "strings.Builder", "bufio.Writer", "bufio.Reader", "math/rand.Rand", "bytes.Reader", "strings.Reader":
								out = append(out, sharedWrite{in, cc.Args[0], "a call of " + shortFn(f)})
							}
						}
					}
				}
			}
		}
	}
	return out
}

func (p *Program) sharedState() *sharedInfo {
	s := &sharedInfo{p: p, writes: map[*ssa.Function]map[int]token.Pos{}, returns: map[*ssa.Function]bool{}}
	var fns []*ssa.Function
	for _, fn := range p.Funcs {
		if p.InModule(fn) && !isSpecFunc(fn) && len(fn.Blocks) > 0 {
			fns = append(fns, fn)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			for _, w := range s.writesOf(fn) {
				for _, o := range s.origin(w.to, map[ssa.Value]bool{}) {
					if o.param >= 0 && o.global == "" && o.alloc == nil {
						if s.writes[fn] == nil {
							s.writes[fn] = map[int]token.Pos{}
						}
						if _, ok := s.writes[fn][o.param]; !ok {
							s.writes[fn][o.param] = w.in.Pos()
							changed = true
						}
					}
				}
			}
			if !s.returns[fn] {
				for _, b := range fn.Blocks {
					ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					if !ok {
						continue
					}
					for _, v := range ret.Results {
						if !holdsReference(v.Type()) || isErrorType(v.Type()) {
							continue
						}
						for _, o := range s.origin(v, map[ssa.Value]bool{}) {
							if o.global != "" && !strings.HasPrefix(o.global, "err") {
								s.returns[fn] = true
								changed = true
							}
						}
					}
				}
			}
		}
	}
	return s
}

func (r *Report) checkShared() {
	r.Rule("shared-state", "no function writes memory reachable from a package-level variable after initialisation, except through types that synchronise themselves")
	r.Rule("published-complete", "memory handed to a package-level cache is not written after that")
	r.Rule("pooled-memory", "no function returns memory of an object it puts back into a pool")
	s := r.P.sharedState()
	nw, np := 0, 0
	for _, fn := range r.P.Funcs {
		if !r.P.InModule(fn) || isSpecFunc(fn) || len(fn.Blocks) == 0 || fn.Synthetic != "" && fn.Name() == "init" {
			continue
		}
		if onlyAtInit(r.P, fn) {
			continue
		}
		ws := s.writesOf(fn)
		for _, w := range ws {
			nw++
			for _, o := range s.origin(w.to, map[ssa.Value]bool{}) {
				if o.global == "" {
					continue
				}
				where := r.P.Pos(w.in.Pos())
				if locked(w.in) {
					r.Undecided("shared-state", shortFn(fn)+": "+o.global, where, "%s under a lock", w.what)
				} else {
					r.Ob("shared-state", shortFn(fn)+": "+o.global, where, false, "%s changes memory shared through %s", w.what, o.global)
				}
				break
			}
		}
		// published, then written
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				vals := publishes(in)
				for _, v := range vals {
					np++
					for _, o := range s.origin(v, map[ssa.Value]bool{}) {
						if o.alloc == nil {
							continue
						}
						for _, w := range ws {
							if w.in == in || !after(in, i, w.in) {
								continue
							}
							for _, q := range s.origin(w.to, map[ssa.Value]bool{}) {
								if q.alloc == o.alloc {
									r.Ob("published-complete", shortFn(fn), r.P.Pos(w.in.Pos()), false, "%s changes what was put into the shared cache at %s", w.what, r.P.Pos(in.Pos()))
								}
							}
						}
					}
				}
			}
		}
		r.pooledMemory(fn)
	}
	r.Units["writes_examined"] = nw
	r.Units["publications"] = np
	r.Ob("shared-state", "writes", "", nw > 50, "%d writes examined", nw)
	r.Ob("published-complete", "publications", "", true, "%d values handed to shared caches", np)
	var gs []string
	for _, pk := range []*ssa.Package{r.P.XML, r.P.MPD} {
		for n, m := range pk.Members {
			if _, ok := m.(*ssa.Global); ok && !strings.HasPrefix(n, "init$") && !strings.HasPrefix(n, specPrefix) {
				gs = append(gs, pk.Pkg.Name()+"."+n)
			}
		}
	}
	sort.Strings(gs)
	r.Ob("shared-state", "package-level variables", "", true, "%s", strings.Join(gs, " "))
}

// onlyAtInit: an initialiser, or a function literal run by one.
func onlyAtInit(p *Program, fn *ssa.Function) bool {
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

// publishes: values an instruction makes visible to other goroutines.
func publishes(in ssa.Instruction) []ssa.Value {
	switch x := in.(type) {
	case *ssa.Store:
		if _, ok := x.Addr.(*ssa.Global); ok && holdsReference(x.Val.Type()) {
			return []ssa.Value{x.Val}
		}
	case ssa.CallInstruction:
		f := x.Common().StaticCallee()
		if f == nil || f.Signature.Recv() == nil {
			return nil
		}
		rv := deref(f.Signature.Recv().Type())
		if isNamed(rv, "sync", "Map") {
			switch f.Name() {
			case "Store", "LoadOrStore", "Swap", "CompareAndSwap":
				return x.Common().Args[2:]
			}
		}
		if n := namedOf(rv); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && (f.Name() == "Store" || f.Name() == "Swap") {
			return x.Common().Args[1:]
		}
	}
	return nil
}

// after: w may run after in (at index i of its block).
func after(in ssa.Instruction, i int, w ssa.Instruction) bool {
	if in.Block() == w.Block() {
		for k, x := range in.Block().Instrs {
			if x == w && k > i {
				return true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == w.Block() {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range in.Block().Succs {
		if walk(s) {
			return true
		}
	}
	return false
}

// locked: an exclusive lock is taken before, or the code runs in a Once.
func locked(in ssa.Instruction) bool {
	fn := in.Parent()
	if fn.Parent() != nil {
		for _, b := range fn.Parent().Blocks {
			for _, x := range b.Instrs {
				if c, ok := x.(ssa.CallInstruction); ok {
					f := c.Common().StaticCallee()
					if f != nil && f.Signature.Recv() != nil && isNamed(deref(f.Signature.Recv().Type()), "sync", "Once") {
						return true
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for k, x := range b.Instrs {
			c, ok := x.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := c.Common().StaticCallee()
			if f == nil || f.Name() != "Lock" || pkgPathOf(f) != "sync" {
				continue
			}
			if b.Dominates(in.Block()) && (b != in.Block() || after(x, k, in)) {
				return true
			}
		}
	}
	return false
}

// pooledMemory: results that are part of an object put back into a pool.
func (r *Report) pooledMemory(fn *ssa.Function) {
	var back []ssa.Value
	var pos []token.Pos
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := c.Common().StaticCallee()
			if f == nil || f.Name() != "Put" || f.Signature.Recv() == nil || !isNamed(deref(f.Signature.Recv().Type()), "sync", "Pool") {
				continue
			}
			v := c.Common().Args[1]
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			back = append(back, v)
			pos = append(pos, in.Pos())
		}
	}
	if len(back) == 0 {
		return
	}
	bad := false
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, v := range ret.Results {
			for i, o := range back {
				if holdsReference(v.Type()) && partOf(v, o, map[ssa.Value]bool{}) {
					bad = true
					r.Ob("pooled-memory", shortFn(fn), r.P.Pos(ret.Pos()), false, "returns memory of the object put back at %s", r.P.Pos(pos[i]))
				}
			}
		}
	}
	if !bad {
		r.Ob("pooled-memory", shortFn(fn), r.P.Pos(fn.Pos()), true, "%d objects put back", len(back))
	}
}

func partOf(v, o ssa.Value, seen map[ssa.Value]bool) bool {
	if v == o {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		return partOf(x.X, o, seen)
	case *ssa.FieldAddr:
		return partOf(x.X, o, seen)
	case *ssa.IndexAddr:
		return partOf(x.X, o, seen)
	case *ssa.MakeInterface:
		return partOf(x.X, o, seen)
	case *ssa.ChangeType:
		return partOf(x.X, o, seen)
	case *ssa.TypeAssert:
		return partOf(x.X, o, seen)
	case *ssa.Extract:
		return partOf(x.Tuple, o, seen)
	case *ssa.UnOp:
		return x.Op == token.MUL && holdsReference(x.Type()) && partOf(x.X, o, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if partOf(e, o, seen) {
				return true
			}
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f != nil && f.Name() == "Bytes" && f.Signature.Recv() != nil {
			return partOf(x.Call.Args[0], o, seen)
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return partOf(x.Call.Args[0], o, seen)
		}
	}
	return false
}

func init() {
	codecRules["C08"] = func(r *Report) { r.checkPool() }
	codecRules["C24"] = func(r *Report) { r.checkShared() }
}

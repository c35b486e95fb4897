package main

import (
	"crypto/sha1"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *frame) panicIf(c BDD, reason string, in ssa.Instruction) {
	ev := f.ev
	c = ev.B.And(f.g, c)
	if c == bFalse || !ev.feasible(c) {
		return
	}
	ev.panics = append(ev.panics, panicRec{c, reason, in.Pos(), f.fn, ev.curLoop()})
	f.g = ev.B.And(f.g, ev.B.Not(c))
}

func (f *frame) nilCheck(v Value, what string, in ssa.Instruction) {
	ev := f.ev
	c := bFalse
	for _, p := range v.parts {
		n := ev.B.And(p.g, ev.eqTerms(p.t, ev.Nil()))
		if ev.assumeElems && p.t.op == "load" && len(p.t.args) > 0 && p.t.args[0].op == "iaddr" {
			f.g = ev.B.And(f.g, ev.B.Not(n)) // precondition: no nil elements in lists
			continue
		}
		c = ev.B.Or(c, n)
	}
	f.panicIf(c, "nil dereference of "+what, in)
}

func (f *frame) fresh(kind string, in ssa.Value) *Term {
	ev := f.ev
	id := f.ctx + "/" + kind + in.Name()
	if ev.guide != nil && !ev.provisional() {
		if t, ok := ev.allocMatch[id]; ok {
			return t
		}
		if t := ev.matchAlloc(allocType(in)); t != nil {
			ev.allocMatch[id] = t
			ev.allocUsed[t] = true
			return t
		}
	}
	n, ok := ev.allocs[id]
	if !ok {
		n = len(ev.Engine.allocNames)
		ev.Engine.allocNames = append(ev.Engine.allocNames, id)
		ev.allocs[id] = n
	}
	t := ev.mk("alloc", fmt.Sprintf("%d:%s", n, f.fn.Name()), allocType(in))
	return t
}

// allocType: what is allocated; the capacity of a slice is not looked at.
func allocType(in ssa.Value) types.Type {
	if a, ok := in.(*ssa.Alloc); ok {
		if at, ok := deref(a.Type()).Underlying().(*types.Array); ok && (a.Comment == "makeslice" || a.Comment == "slicelit" && at.Len() == 0) {
			return types.NewSlice(at.Elem())
		}
	}
	return in.Type()
}

func (f *frame) instr(in ssa.Instruction) {
	ev := f.ev
	set := func(v ssa.Value, x Value) { f.env[v] = x }
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		a := f.fresh("a", in)
		ev.log = append(ev.log, &entry{kind: eAlloc, g: f.g, addr: a, pos: in.Pos(), in: f.fn, loops: ev.curLoops()})
		set(in, one(f.g, a))
	case *ssa.MakeSlice:
		// room for attributes, but none yet: nobody tells it from no list
		if c, ok := in.Len.(*ssa.Const); ok && c.Int64() == 0 && isAttrList(in.Type()) {
			set(in, one(f.g, ev.Nil()))
			break
		}
		a := f.fresh("m", in)
		ev.log = append(ev.log, &entry{kind: eAlloc, g: f.g, addr: a, pos: in.Pos(), in: f.fn, loops: ev.curLoops()})
		l := f.val(in.Len)
		set(in, ev.lift(f.g, func(ts []*Term) *Term {
			return ev.mk("slice", "", in.Type(), a, ev.Int(0), ts[0])
		}, l))
	case *ssa.MakeMap:
		a := f.fresh("m", in)
		ev.log = append(ev.log, &entry{kind: eAlloc, g: f.g, addr: a, pos: in.Pos(), in: f.fn, loops: ev.curLoops()})
		set(in, one(f.g, a))
	case *ssa.MakeChan:
		set(in, one(f.g, f.fresh("c", in)))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		a := f.fresh("f", in)
		t := ev.mk("closure", fmt.Sprint(a.id), in.Type())
		t.fn = fn
		var bs []Value
		for _, b := range in.Bindings {
			bs = append(bs, f.val(b))
		}
		ev.closures[t] = bs
		// the bindings are reachable through the closure
		set2 := map[*Term]bool{}
		for _, b := range bs {
			allocsInValue(b, set2)
		}
		var args []*Term
		for x := range set2 {
			args = append(args, x)
		}
		sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
		t.args = args
		set(in, one(f.g, t))
	case *ssa.MakeInterface:
		set(in, f.makeIface(f.val(in.X), in.X.Type(), in.Type()))
	case *ssa.ChangeInterface:
		set(in, ev.restrict(f.val(in.X), f.g))
	case *ssa.ChangeType:
		v := ev.restrict(f.val(in.X), f.g)
		if v.isAgg() {
			v.typ = in.Type()
		}
		set(in, v)
	case *ssa.Convert:
		set(in, f.convert(f.val(in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		panic("undecided: generic conversion in " + f.fn.String())
	case *ssa.SliceToArrayPointer:
		set(in, ev.lift(f.g, func(ts []*Term) *Term { return ev.mk("slice2arr", "", in.Type(), ts[0]) }, f.val(in.X)))
	case *ssa.FieldAddr:
		x := f.val(in.X)
		f.nilCheck(x, describe(in.X), in)
		st := deref(in.X.Type())
		set(in, ev.lift(f.g, func(ts []*Term) *Term { return ev.faddr(ts[0], st, in.Field) }, x))
	case *ssa.Field:
		x := f.val(in.X)
		if x.isAgg() {
			set(in, ev.restrict(x.agg[in.Field], f.g))
		} else {
			set(in, ev.lift(f.g, func(ts []*Term) *Term { return ev.mk("field", fmt.Sprint(in.Field), in.Type(), ts[0]) }, x))
		}
	case *ssa.IndexAddr:
		x, i := f.val(in.X), f.val(in.Index)
		var elem types.Type
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			elem = u.Elem()
		case *types.Pointer:
			elem = u.Elem().Underlying().(*types.Array).Elem()
			f.nilCheck(x, describe(in.X), in)
		}
		f.boundsCheck(x, i, in.X.Type(), in)
		set(in, ev.lift(f.g, func(ts []*Term) *Term { return ev.iaddr(ts[0], ts[1], elem) }, x, i))
	case *ssa.Index:
		x, i := f.val(in.X), f.val(in.Index)
		f.boundsCheck(x, i, in.X.Type(), in)
		if x.isAgg() {
			set(in, f.indexAgg(x, i, in.Type()))
		} else {
			set(in, f.opq(ev.lift(f.g, func(ts []*Term) *Term { return ev.indexT(ts[0], ts[1], in.Type()) }, x, i), in.Type()))
		}
	case *ssa.Lookup:
		x, i := f.val(in.X), f.val(in.Index)
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			set(in, f.mapLookup(x, i, mt, in.CommaOk, in))
		} else {
			f.boundsCheck(x, i, in.X.Type(), in)
			set(in, ev.lift(f.g, func(ts []*Term) *Term { return ev.indexT(ts[0], ts[1], in.Type()) }, x, i))
		}
	case *ssa.Slice:
		set(in, f.slice(in))
	case *ssa.UnOp:
		set(in, f.unop(in))
	case *ssa.BinOp:
		set(in, f.binop(in.Op, f.val(in.X), f.val(in.Y), in.X.Type(), in.Type(), in))
	case *ssa.Store:
		a := f.val(in.Addr)
		f.nilCheck(a, describe(in.Addr), in)
		ev.store(f.g, a, f.val(in.Val), deref(in.Addr.Type()), in)
	case *ssa.MapUpdate:
		m := f.val(in.Map)
		f.nilCheck(m, describe(in.Map), in)
		mt := in.Map.Type().Underlying().(*types.Map)
		k := f.boxKey(f.val(in.Key), mt.Key())
		addr := ev.lift(f.g, func(ts []*Term) *Term { return ev.mk("mapaddr", "", nil, ts[0], ts[1]) }, m, k)
		v := f.val(in.Value)
		if v.isAgg() {
			v = f.box(v, mt.Elem())
		}
		for _, p := range addr.parts {
			ev.log = append(ev.log, &entry{kind: eMapStore, g: p.g, addr: p.t, val: ev.restrict(v, p.g), pos: in.Pos(), in: f.fn, loops: ev.curLoops()})
		}
	case *ssa.Range:
		set(in, ev.lift(f.g, func(ts []*Term) *Term { return ev.mk("iter", "", nil, ts[0]) }, f.val(in.X)))
	case *ssa.Next:
		if len(ev.loops) == 0 {
			panic("undecided: iterator outside a loop in " + f.fn.String())
		}
		l := ev.loops[len(ev.loops)-1]
		it := f.val(in.Iter)
		if len(it.parts) > 0 {
			l.ranges = it.parts[0].t.args[0]
		}
		tt := in.Type().(*types.Tuple)
		x := it.parts[0].t
		ok := ev.atom(ev.mk("more", l.name, nil, x))
		mkv := func(k string, t types.Type) Value {
			if b := basicOf(t); b != nil && b.Kind() == types.Invalid {
				return scalar(ev.Nil())
			}
			return ev.restrict(ev.opaqueValue(t, func(t types.Type, path string) *Term {
				return ev.mk("sym", k+"!"+l.name+path, t)
			}, ""), f.g)
		}
		set(in, Value{typ: tt, agg: []Value{ev.boolean(f.g, ok), mkv("phi!key", tt.At(1).Type()), mkv("phi!val", tt.At(2).Type())}})
	case *ssa.TypeAssert:
		set(in, f.typeAssert(in))
	case *ssa.Extract:
		x := f.val(in.Tuple)
		set(in, ev.restrict(x.agg[in.Index], f.g))
	case *ssa.Call:
		set(in, f.call(&in.Call, in, in))
	case *ssa.Defer:
		d := deferRec{g: f.g, call: in}
		for _, a := range in.Call.Args {
			d.args = append(d.args, f.val(a))
		}
		if !in.Call.IsInvoke() {
			d.fnv = f.val(in.Call.Value)
		} else {
			d.fnv = f.val(in.Call.Value)
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			g := ev.B.And(f.g, d.g)
			if g == bFalse {
				continue
			}
			rest := ev.B.And(f.g, ev.B.Not(d.g))
			f.g = g
			f.callWith(&d.call.Call, d.call, d.fnv, d.args, nil)
			f.g = ev.B.Or(f.g, rest)
		}
	case *ssa.Return:
		var vs []Value
		for _, r := range in.Results {
			vs = append(vs, ev.restrict(f.val(r), f.g))
		}
		f.rets = append(f.rets, retRec{f.g, vs})
		f.g = bFalse
	case *ssa.Jump:
		f.edge(in.Block(), in.Block().Succs[0], f.g)
	case *ssa.If:
		c := ev.truth(f.val(in.Cond))
		b := in.Block()
		t, e := ev.B.And(f.g, c), ev.B.And(f.g, ev.B.Not(c))
		if b.Succs[0] == b.Succs[1] {
			f.edge(b, b.Succs[0], f.g)
		} else {
			f.edge(b, b.Succs[0], t)
			f.edge(b, b.Succs[1], e)
		}
	case *ssa.Panic:
		ev.panics = append(ev.panics, panicRec{f.g, "explicit panic", in.Pos(), f.fn, ev.curLoop()})
		f.g = bFalse
	default:
		panic(fmt.Sprintf("undecided: %T in %s", in, f.fn))
	}
}

func (f *frame) edge(from, to *ssa.BasicBlock, g BDD) { f.edges[edge{from, to}] = g }

func describe(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return describe(v.X)
		}
	case *ssa.FieldAddr:
		return describe(v.X) + "." + asStruct(deref(v.X.Type())).Field(v.Field).Name()
	case *ssa.IndexAddr:
		return describe(v.X) + "[]"
	case *ssa.Parameter:
		return v.Name()
	}
	return v.Name()
}

// opq turns opaque boolean terms into atoms.
func (f *frame) opq(v Value, t types.Type) Value {
	if isBoolType(t) && !v.isAgg() {
		return f.ev.boolean(f.g, f.ev.truth(v))
	}
	return v
}

func (ev *Eval) indexT(x, i *Term, t types.Type) *Term {
	if s, ok := x.constStr(); ok {
		if n, ok := i.constInt(); ok && n >= 0 && int(n) < len(s) {
			return ev.Int(int64(s[n]))
		}
	}
	if x.op == "slice" {
		return ev.indexT(x.args[0], ev.fromLin(toLin(x.args[1]).add(toLin(i), 1), types.Typ[types.Int]), t)
	}
	return ev.mk("index", "", t, x, i)
}

func (f *frame) indexAgg(x, i Value, t types.Type) Value {
	ev := f.ev
	var alts []Value
	for _, p := range i.parts {
		g := ev.B.And(f.g, p.g)
		if g == bFalse {
			continue
		}
		if n, ok := p.t.constInt(); ok && n >= 0 && int(n) < len(x.agg) {
			alts = append(alts, ev.restrict(x.agg[n], g))
			continue
		}
		for n := range x.agg {
			c := ev.B.And(g, ev.eqTerms(p.t, ev.Int(int64(n))))
			if c != bFalse {
				alts = append(alts, ev.restrict(x.agg[n], c))
			}
		}
	}
	if len(alts) == 0 {
		return Value{}
	}
	return ev.merge(alts...)
}

func (ev *Eval) lenT(x *Term, t types.Type) *Term {
	if s, ok := x.constStr(); ok {
		return ev.Int(int64(len(s)))
	}
	switch x.op {
	case "nil":
		return ev.Int(0)
	case "gconst":
		if tb := ev.tableOf(x); tb != nil && tb.root != nil {
			return ev.Int(int64(tb.n))
		}
	case "list":
		return ev.Int(int64(len(x.args)))
	case "bytes":
		return ev.lenT(x.args[0], t)
	case "slice":
		return ev.fromLin(toLin(x.args[2]).add(toLin(x.args[1]), -1), types.Typ[types.Int])
	case "append":
		if x.args[1].op == "list" {
			return ev.fromLin(toLin(ev.lenT(x.args[0], t)).add(linear{k: int64(len(x.args[1].args))}, 1), types.Typ[types.Int])
		}
	case "concat":
		l := linear{c: map[*Term]int64{}}
		for _, a := range x.args {
			l = l.add(toLin(ev.lenT(a, t)), 1)
		}
		return ev.fromLin(l, types.Typ[types.Int])
	}
	return ev.mk("len", "", types.Typ[types.Int], x)
}

func (f *frame) boundsCheck(x, i Value, t types.Type, in ssa.Instruction) {
	ev := f.ev
	bad := bFalse
	n := int64(-1)
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if a, ok := u.(*types.Array); ok {
		n = a.Len()
	}
	check := func(g BDD, it *Term, ln *Term) {
		lo := ev.le0(toLin(it).add(linear{k: 1}, 1)) // i <= -1
		hi := ev.le0(toLin(ln).add(toLin(it), -1))   // len <= i
		bad = ev.B.Or(bad, ev.B.And(g, ev.B.Or(lo, hi)))
	}
	for _, ip := range i.parts {
		if n >= 0 {
			check(ip.g, ip.t, ev.Int(n))
			continue
		}
		for _, xp := range x.parts {
			g := ev.B.And(f.g, ip.g, xp.g)
			if g != bFalse {
				check(g, ip.t, ev.lenT(xp.t, t))
			}
		}
	}
	if !ev.noBounds {
		f.panicIf(bad, "index out of range", in)
	} else if isStringType(t) {
		ev.outside = ev.B.Or(ev.outside, bad)
	}
}

func (f *frame) slice(in *ssa.Slice) Value {
	ev := f.ev
	x := f.val(in.X)
	lo := scalar(ev.Int(0))
	if in.Low != nil {
		lo = f.val(in.Low)
	}
	t := in.X.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		f.nilCheck(x, describe(in.X), in)
		n := p.Elem().Underlying().(*types.Array).Len()
		hi := scalar(ev.Int(n))
		if in.High != nil {
			hi = f.val(in.High)
		}
		return f.sliceOf(x, lo, hi, in, func(*Term) *Term { return ev.Int(n) })
	}
	var hi Value
	if in.High != nil {
		hi = f.val(in.High)
	} else {
		hi = ev.lift(f.g, func(ts []*Term) *Term { return ev.lenT(ts[0], in.X.Type()) }, x)
	}
	return f.sliceOf(x, lo, hi, in, func(t *Term) *Term {
		if isStringType(in.X.Type()) || in.High == nil {
			return ev.lenT(t, in.X.Type())
		}
		if t.op == "slice" || t.op == "nil" || t.op == "list" {
			return nil // capacity unknown: bounded by the underlying array
		}
		return ev.mk("cap", "", types.Typ[types.Int], t)
	})
}

func (f *frame) sliceOf(x, lo, hi Value, in *ssa.Slice, limit func(*Term) *Term) Value {
	ev := f.ev
	bad := bFalse
	for _, xp := range x.parts {
		for _, lp := range lo.parts {
			for _, hp := range hi.parts {
				g := ev.B.And(f.g, xp.g, lp.g, hp.g)
				if g == bFalse {
					continue
				}
				c := ev.le0(toLin(lp.t).add(linear{k: 1}, 1))
				c = ev.B.Or(c, ev.le0(toLin(hp.t).add(toLin(lp.t), -1).add(linear{k: 1}, 1))) // hi - lo + 1 <= 0
				if l := limit(xp.t); l != nil && l != hp.t {
					c = ev.B.Or(c, ev.le0(toLin(l).add(toLin(hp.t), -1).add(linear{k: 1}, 1)))
				}
				bad = ev.B.Or(bad, ev.B.And(g, c))
			}
		}
	}
	if !ev.noBounds {
		f.panicIf(bad, "slice bounds out of range", in)
	}
	return ev.lift(f.g, func(ts []*Term) *Term {
		b, l, h := ts[0], ts[1], ts[2]
		return ev.sliceT(b, l, h, in.Type())
	}, x, lo, hi)
}

func (ev *Eval) sliceT(b, l, h *Term, t types.Type) *Term {
	if s, ok := b.constStr(); ok {
		i, ok1 := l.constInt()
		j, ok2 := h.constInt()
		if ok1 && ok2 && 0 <= i && i <= j && int(j) <= len(s) {
			return ev.Str(s[i:j])
		}
	}
	if isStringType(b.typ) {
		if i, ok := l.constInt(); ok && i == 0 && h == ev.lenT(b, t) {
			return b
		}
	} else if i, ok := l.constInt(); ok && i == 0 && b.op != "alloc" && h == ev.lenT(b, t) {
		return b
	}
	if b.op == "slice" {
		lo := ev.fromLin(toLin(b.args[1]).add(toLin(l), 1), types.Typ[types.Int])
		hi := ev.fromLin(toLin(b.args[1]).add(toLin(h), 1), types.Typ[types.Int])
		return ev.mk("slice", "", t, b.args[0], lo, hi)
	}
	return ev.mk("slice", "", t, b, l, h)
}

func (f *frame) makeIface(v Value, t, it types.Type) Value {
	ev := f.ev
	if types.IsInterface(t) {
		return ev.restrict(v, f.g)
	}
	if v.isAgg() {
		v = f.box(v, t)
	}
	return ev.lift(f.g, func(ts []*Term) *Term {
		r := ev.mk("iface", typeStr(t), it, ts[0])
		r.ctyp = t
		return r
	}, v)
}

// box flattens an aggregate to one term.
func (f *frame) box(v Value, t types.Type) Value {
	ev := f.ev
	var fs []Value
	for _, a := range v.agg {
		if a.isAgg() {
			a = f.box(a, t)
		}
		fs = append(fs, a)
	}
	return ev.lift(f.g, func(ts []*Term) *Term {
		// a struct of all fields of one opaque struct is that struct
		return ev.mk("struct", typeStr(t), t, append([]*Term(nil), ts...)...)
	}, fs...)
}

func (f *frame) boxKey(v Value, t types.Type) Value {
	if v.isAgg() {
		return f.box(v, t)
	}
	return v
}

// unbox expands a term of aggregate type.
func (ev *Eval) unbox(g BDD, v Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v.isAgg() {
			return ev.restrict(v, g)
		}
		r := Value{typ: t, agg: []Value{}}
		for i := 0; i < u.NumFields(); i++ {
			fv := ev.lift(g, func(ts []*Term) *Term {
				if ts[0].op == "struct" && len(ts[0].args) == u.NumFields() {
					return ts[0].args[i]
				}
				return ev.mk("field", fmt.Sprint(i), u.Field(i).Type(), ts[0])
			}, v)
			if isBoolType(u.Field(i).Type()) {
				fv = ev.boolean(g, ev.truth(fv))
			}
			r.agg = append(r.agg, ev.unbox(g, fv, u.Field(i).Type()))
		}
		return r
	}
	return ev.restrict(v, g)
}

func (f *frame) mapLookup(m, k Value, mt *types.Map, commaOk bool, in ssa.Instruction) Value {
	ev := f.ev
	k = f.boxKey(k, mt.Key())
	addr := ev.lift(f.g, func(ts []*Term) *Term { return ev.mk("mapaddr", "", nil, ts[0], ts[1]) }, m, k)
	var alts, oks []Value
	for _, p := range addr.parts {
		v, ok := ev.loadMap(p.g, p.t, mt)
		alts = append(alts, v)
		oks = append(oks, ok)
	}
	v := ev.merge(alts...)
	if !commaOk {
		return v
	}
	return Value{typ: in.(ssa.Value).Type(), agg: []Value{v, ev.merge(oks...)}}
}

func (ev *Eval) loadMap(g BDD, a *Term, mt *types.Map) (Value, Value) {
	rem := g
	root := a.args[0]
	if tb := ev.tableOf(root); tb != nil && tb.root == nil {
		if v, ok, known := ev.lookupTable(g, tb, a.args[1], mt); known {
			return v, ok
		}
	}
	okc := bFalse
	var alts []Value
	opaque := func(c BDD, ep *Term) {
		has := ev.atom(ev.mk("mapok", "", nil, a, ep))
		has = ev.B.And(has, ev.B.Not(ev.eqTerms(root, ev.Nil()))) // a nil map has no entries
		okc = ev.B.Or(okc, ev.B.And(c, has))
		full := ev.P.mapHoldsAddresses(mt)
		v := ev.opaqueValue(mt.Elem(), func(t types.Type, path string) *Term {
			x := ev.mk("mapget", path, t, a, ep)
			x.nonnil = x.nonnil || full
			return x
		}, "")
		if x := ev.B.And(c, has); x != bFalse {
			alts = append(alts, ev.restrict(v, x))
		}
		if x := ev.B.And(c, ev.B.Not(has)); x != bFalse {
			alts = append(alts, ev.restrict(ev.zero(mt.Elem()), x))
		}
	}
	for i := ev.now() - 1; i >= 0 && rem != bFalse; i-- {
		en := ev.log[i]
		c := ev.B.And(rem, en.g)
		if c == bFalse {
			continue
		}
		switch en.kind {
		case eMapStore:
			c = ev.B.And(c, ev.sameAddr(a, en.addr))
			if c == bFalse {
				continue
			}
			if en.name == "delete" {
				alts = append(alts, ev.restrict(ev.zero(mt.Elem()), c))
			} else {
				okc = ev.B.Or(okc, c)
				alts = append(alts, ev.unbox(c, ev.restrict(en.val, c), mt.Elem()))
			}
			rem = ev.B.And(rem, ev.B.Not(c))
		case eAlloc:
			if root != en.addr {
				continue
			}
			alts = append(alts, ev.restrict(ev.zero(mt.Elem()), c))
			rem = ev.B.And(rem, ev.B.Not(c))
		case eEvent:
			if !ev.touches(en, a) || ev.localAt(root, i) {
				continue
			}
			opaque(c, en.epoch)
			rem = ev.B.And(rem, ev.B.Not(c))
		case eLoop:
			if !ev.loopTouches(en.loop, a, root, i) {
				continue
			}
			opaque(c, en.epoch)
			rem = ev.B.And(rem, ev.B.Not(c))
		}
	}
	if rem != bFalse {
		opaque(rem, ev.Sym("m0", nil))
	}
	return ev.merge(alts...), ev.boolean(g, okc)
}

func (f *frame) unop(in *ssa.UnOp) Value {
	ev := f.ev
	x := f.val(in.X)
	switch in.Op {
	case token.MUL:
		f.nilCheck(x, describe(in.X), in)
		if a, ok := in.X.(*ssa.IndexAddr); ok {
			// a letter of a text copied into bytes that nobody writes to
			if c, ok := a.X.(*ssa.Convert); ok && isStringType(c.X.Type()) && isByteSlice(c.Type()) && !(&contentUses{p: ev.P, seen: map[ssa.Value]bool{}}).content(c) {
				return ev.lift(f.g, func(ts []*Term) *Term { return ev.indexT(ts[0], ts[1], in.Type()) }, f.val(c.X), f.val(a.Index))
			}
		}
		return ev.load(f.g, x, in.Type())
	case token.NOT:
		return ev.boolean(f.g, ev.B.Not(ev.truth(x)))
	case token.SUB:
		return ev.lift(f.g, func(ts []*Term) *Term {
			if isIntType(in.Type()) {
				return ev.fromLin(toLin(ts[0]).scale(-1), in.Type())
			}
			if ts[0].op == "const" && ts[0].val != nil {
				return ev.Float(constant.UnaryOp(token.SUB, ts[0].val, 0))
			}
			return ev.mk("neg", "", in.Type(), ts[0])
		}, x)
	case token.XOR:
		return ev.lift(f.g, func(ts []*Term) *Term {
			if b := basicOf(in.Type()); b != nil && intBits(b) == 64 {
				return ev.fromLin(toLin(ts[0]).scale(-1).add(linear{k: -1}, 1), in.Type()) // ^x = -x-1
			}
			return ev.mk("op", "^x", in.Type(), ts[0])
		}, x)
	}
	panic(fmt.Sprintf("undecided: unary %s in %s", in.Op, f.fn))
}

func (ev *Eval) eqValues(g BDD, x, y Value) BDD {
	if x.isAgg() || y.isAgg() {
		r := bTrue
		if !x.isAgg() {
			x, y = y, x
		}
		y = ev.unbox(g, y, x.typ)
		for i := range x.agg {
			r = ev.B.And(r, ev.eqValues(g, x.agg[i], y.agg[i]))
		}
		return r
	}
	r := bFalse
	for _, a := range x.parts {
		for _, b := range y.parts {
			c := ev.B.And(g, a.g, b.g)
			if c != bFalse {
				r = ev.B.Or(r, ev.B.And(c, ev.eqTerms(a.t, b.t)))
			}
		}
	}
	return r
}

func (f *frame) binop(op token.Token, x, y Value, xt, t types.Type, in ssa.Instruction) Value {
	ev := f.ev
	switch op {
	case token.EQL:
		return ev.boolean(f.g, ev.eqValues(f.g, x, y))
	case token.NEQ:
		return ev.boolean(f.g, ev.B.Not(ev.eqValues(f.g, x, y)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		c := bFalse
		for _, a := range x.parts {
			for _, b := range y.parts {
				g := ev.B.And(f.g, a.g, b.g)
				if g != bFalse {
					c = ev.B.Or(c, ev.B.And(g, ev.cmp(op, a.t, b.t, xt)))
				}
			}
		}
		return ev.boolean(f.g, c)
	case token.QUO, token.REM:
		if isIntType(t) {
			z := bFalse
			for _, b := range y.parts {
				z = ev.B.Or(z, ev.B.And(b.g, ev.eqTerms(b.t, ev.Int(0))))
			}
			f.panicIf(z, "division by zero", in)
		}
	case token.AND, token.OR:
		if isBoolType(t) {
			a, b := ev.truth(x), ev.truth(y)
			if op == token.AND {
				return ev.boolean(f.g, ev.B.And(a, b))
			}
			return ev.boolean(f.g, ev.B.Or(a, b))
		}
	}
	return ev.lift(f.g, func(ts []*Term) *Term { return ev.arith(op, ts[0], ts[1], t) }, x, y)
}

func (ev *Eval) cmp(op token.Token, a, b *Term, t types.Type) BDD {
	if isIntType(t) {
		if isUnsigned(t) && (wraps(a) || wraps(b)) { // differences wrap around
			switch op {
			case token.LSS:
				return ev.atom(ev.mk("lt", "", nil, a, b))
			case token.GTR:
				return ev.atom(ev.mk("lt", "", nil, b, a))
			case token.LEQ:
				return ev.B.Not(ev.atom(ev.mk("lt", "", nil, b, a)))
			default:
				return ev.B.Not(ev.atom(ev.mk("lt", "", nil, a, b)))
			}
		}
		d := toLin(a).add(toLin(b), -1) // a - b
		switch op {
		case token.LSS:
			d.k++
			return ev.le0(d)
		case token.LEQ:
			return ev.le0(d)
		case token.GTR:
			return ev.B.Not(ev.le0(d))
		default:
			d.k++
			return ev.B.Not(ev.le0(d))
		}
	}
	switch op {
	case token.GTR:
		a, b, op = b, a, token.LSS
	case token.GEQ:
		a, b, op = b, a, token.LEQ
	}
	if a.op == "const" && b.op == "const" && a.val != nil && b.val != nil {
		if constant.Compare(a.val, op, b.val) {
			return bTrue
		}
		return bFalse
	}
	if isStringType(t) && op == token.LEQ { // total order: a<=b is not b<a
		return ev.B.Not(ev.atom(ev.mk("lt", "", nil, b, a)))
	}
	if op == token.LSS {
		return ev.atom(ev.mk("lt", "", nil, a, b))
	}
	return ev.atom(ev.mk("le", "", nil, a, b))
}

func (ev *Eval) arith(op token.Token, a, b *Term, t types.Type) *Term {
	if isStringType(t) && op == token.ADD {
		return ev.concat(a, b)
	}
	if isIntType(t) {
		ca, oka := a.constInt()
		cb, okb := b.constInt()
		switch op {
		case token.ADD:
			return ev.fromLin(toLin(a).add(toLin(b), 1), t)
		case token.SUB:
			return ev.fromLin(toLin(a).add(toLin(b), -1), t)
		case token.MUL:
			if oka {
				return ev.fromLin(toLin(b).scale(ca), t)
			}
			if okb {
				return ev.fromLin(toLin(a).scale(cb), t)
			}
		case token.SHL:
			if okb && cb >= 0 && cb < 63 {
				return ev.fromLin(toLin(a).scale(1<<uint(cb)), t)
			}
		case token.QUO:
			if oka && okb && cb != 0 && !isUnsigned(t) {
				return ev.Int(ca / cb)
			}
			if oka && okb && cb != 0 && isUnsigned(t) {
				return ev.Int(int64(uint64(ca) / uint64(cb)))
			}
			if okb && cb == 1 {
				return a
			}
			return ev.mk("quo", typeStr(t.Underlying()), t, a, b)
		case token.REM:
			if oka && okb && cb != 0 && !isUnsigned(t) {
				return ev.Int(ca % cb)
			}
			if okb { // a - b*(a/b)
				q := ev.arith(token.QUO, a, b, t)
				return ev.fromLin(toLin(a).add(toLin(q).scale(cb), -1), t)
			}
			return ev.mk("rem", typeStr(t.Underlying()), t, a, b)
		}
		if oka && okb {
			v := constant.BinaryOp(constant.MakeInt64(ca), op, constant.MakeInt64(cb))
			if op != token.SHL && op != token.SHR && v.Kind() == constant.Int {
				if n, ok := constant.Int64Val(v); ok {
					return ev.Int(n)
				}
			}
		}
	}
	if a.op == "const" && b.op == "const" && a.val != nil && b.val != nil && isFloatType(t) && op != token.QUO {
		return ev.Float(constant.BinaryOp(a.val, op, b.val))
	}
	if isIntType(t) {
		if r := ev.bits(op, a, b, t); r != nil {
			return r
		}
	}
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if a.id > b.id {
			a, b = b, a
		}
	}
	return ev.mk("op", op.String()+" "+kindStr(t), t, a, b)
}

// bits simplifies operations on bit sets.
func (ev *Eval) bits(op token.Token, a, b *Term, t types.Type) *Term {
	if op == token.AND || op == token.OR || op == token.XOR {
		if _, ok := a.constInt(); ok {
			a, b = b, a
		}
	}
	c, con := b.constInt()
	switch op {
	case token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if con && c == 0 {
			return a
		}
	case token.AND:
		if con && c == 0 {
			return ev.Int(0)
		}
	}
	if (op == token.AND || op == token.OR) && a == b {
		return a
	}
	// (x op c1) op c2
	if name := op.String() + " " + kindStr(t); con && (op == token.AND || op == token.OR || op == token.XOR) && a.op == "op" && a.aux == name {
		for i, x := range a.args {
			if c1, ok := x.constInt(); ok {
				return ev.arith(op, a.args[1-i], ev.arith(op, ev.Int(c1), ev.Int(c), t), t)
			}
		}
	}
	return nil
}

func kindStr(t types.Type) string { return typeStr(t.Underlying()) }

func (e *Engine) concat(xs ...*Term) *Term {
	var parts []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "concat" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if s, ok := t.constStr(); ok {
			if s == "" {
				return
			}
			if n := len(parts); n > 0 {
				if p, ok := parts[n-1].constStr(); ok {
					parts[n-1] = e.Str(p + s)
					return
				}
			}
		}
		parts = append(parts, t)
	}
	for _, x := range xs {
		add(x)
	}
	switch len(parts) {
	case 0:
		return e.Str("")
	case 1:
		return parts[0]
	}
	return e.mk("concat", "", types.Typ[types.String], parts...)
}

func (f *frame) convert(v Value, from, to types.Type) Value {
	ev := f.ev
	fu, tu := from.Underlying(), to.Underlying()
	switch {
	case isIntType(from) && isIntType(to):
		fb, tb := intBits(from), intBits(to)
		fs, ts := !isUnsigned(from), !isUnsigned(to)
		keep := fb < tb && (!fs || ts) || fb == tb && fs == ts
		return ev.lift(f.g, func(x []*Term) *Term {
			if keep {
				return x[0]
			}
			if c, ok := x[0].constInt(); ok && c >= 0 && (tb == 64 || c < 1<<uint(tb-1)) {
				return x[0]
			}
			if lo, hi, ok := remainderRange(x[0]); ok && lo >= 0 && (tb == 64 || hi < 1<<uint(tb-1)) {
				return x[0]
			}
			// uint64(x) of a non-negative value is x
			if tb == 64 && !ts && nonNegative(x[0]) {
				return x[0]
			}
			return ev.mk("conv", kindStr(to), to, x[0])
		}, v)
	case isIntType(from) && isFloatType(to):
		return ev.lift(f.g, func(x []*Term) *Term {
			if c, ok := x[0].constInt(); ok {
				return ev.Float(constant.MakeInt64(c))
			}
			return ev.mk("conv", kindStr(to), to, x[0])
		}, v)
	case isStringType(from) && isStringType(to), isFloatType(from) && isFloatType(to) && types.Identical(fu, tu):
		return ev.restrict(v, f.g)
	case isStringType(to) && isByteSlice(fu):
		out := Value{}
		for _, p := range v.parts {
			g := ev.B.And(f.g, p.g)
			switch {
			case g == bFalse:
			case p.t.op == "bytes":
				out.parts = append(out.parts, part{g, p.t.args[0]})
			case p.t.op == "nil":
				out.parts = append(out.parts, part{g, ev.Str("")})
			default:
				out.parts = append(out.parts, ev.contentOf("str", p.t, to, g).parts...)
			}
		}
		out.parts = ev.norm(out.parts)
		return out
	case isStringType(from) && isByteSlice(tu):
		return ev.lift(f.g, func(x []*Term) *Term {
			return ev.mk("bytes", "", to, x[0])
		}, v)
	case isStringType(to) && isIntType(from):
		return ev.lift(f.g, func(x []*Term) *Term {
			if c, ok := x[0].constInt(); ok {
				return ev.Str(string(rune(c)))
			}
			return ev.mk("runestr", "", to, x[0])
		}, v)
	}
	return ev.lift(f.g, func(x []*Term) *Term { return ev.mk("conv", kindStr(to), to, x[0]) }, v)
}

// remainderRange bounds m*(x%c)+k for non-negative x.
func remainderRange(t *Term) (lo, hi int64, ok bool) { return toLin(t).remainder() }

func (l linear) remainder() (lo, hi int64, ok bool) {
	for q, n := range l.c {
		if q.op != "quo" || n >= 0 || !nonNegative(q.args[0]) {
			continue
		}
		c, ok := q.args[1].constInt()
		if !ok || c <= 0 || c >= 1<<31 || n%c != 0 || -n/c >= 1<<20 {
			continue
		}
		m := -n / c
		d := l.add(toLin(q.args[0]).scale(m), -1)
		if len(d.c) == 1 && d.c[q] == n {
			return d.k, d.k + m*(c-1), true
		}
	}
	return 0, 0, false
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b := basicOf(s.Elem())
	return b != nil && (b.Kind() == types.Byte)
}

// memVersion names the state of memory holding values of type elem (nil: the
// contents of maps) that x, rooted at root, may refer to: what it was last
// left unknown by, and every value stored since.
func (ev *Eval) memVersion(g BDD, root *Term, elem types.Type) Value {
	if root != nil && root.op != "alloc" {
		root = nil
	}
	norm := func(s string) string {
		if root != nil {
			return strings.ReplaceAll(s, root.String(), "R")
		}
		return s
	}
	value := func(v Value, g BDD) string {
		var sb strings.Builder
		var rec func(v Value)
		rec = func(v Value) {
			var ps []string
			for _, p := range v.parts {
				if c := ev.B.And(p.g, g); c != bFalse {
					if hasAlloc(p.t) {
						ps = append(ps, fmt.Sprint(c, ":", norm(p.t.String())))
					} else {
						ps = append(ps, fmt.Sprint(c, ":", p.t.id))
					}
				}
			}
			sort.Strings(ps)
			sb.WriteString(strings.Join(ps, ";"))
			for _, a := range v.agg {
				sb.WriteString("(")
				rec(a)
				sb.WriteString(")")
			}
		}
		rec(v)
		return sb.String()
	}
	const most = 12
	var out []part
	whole := false // too many alternatives to tell apart
	// cases splits g by the alternatives of v that may occur in it; nil when
	// there are too many.
	cases := func(g BDD, v Value) []part {
		if v.isAgg() || whole {
			return nil
		}
		var ps []part
		left := g
		for _, p := range v.parts {
			if c := ev.B.And(p.g, g); c != bFalse && ev.feasible(c) {
				ps = append(ps, part{c, p.t})
				left = ev.B.And(left, ev.B.Not(c))
			}
		}
		if len(ps) == 0 {
			return nil
		}
		ps[len(ps)-1].g = ev.B.Or(ps[len(ps)-1].g, left)
		return ps
	}
	name := func(t *Term) string {
		if hasAlloc(t) {
			return norm(t.String())
		}
		return fmt.Sprint(t.id)
	}
	var rec func(g BDD, from int, lines []string, seen map[*Term]bool)
	with := func(g BDD, from int, lines []string, seen map[*Term]bool, prefix string, v Value) {
		ps := cases(g, v)
		if ps == nil {
			ps = []part{{g, nil}}
		}
		for _, p := range ps {
			l := prefix + value(v, g)
			if p.t != nil {
				l = prefix + name(p.t)
			}
			m := map[*Term]bool{}
			for k := range seen {
				m[k] = true
			}
			rec(p.g, from, append(append([]string(nil), lines...), l), m)
		}
	}
	rec = func(g BDD, from int, lines []string, seen map[*Term]bool) {
		if len(out) > most && !whole {
			return
		}
		for i, en := range ev.log[:ev.now()] {
			if i < from || ev.B.And(en.g, g) == bFalse {
				continue
			}
			switch en.kind {
			case eStore:
				r := rootOf(en.addr)
				lt := leafType(en.addr)
				if seen[en.addr] || root != nil && r != root || root == nil && r.op == "alloc" || elem == nil || lt == nil || !types.Identical(lt, elem) || !ev.feasible(ev.B.And(en.g, g)) {
					continue
				}
				seen[en.addr] = true
				with(g, i+1, lines, seen, "s"+norm(en.addr.String())+"=", ev.loadLeaf(g, en.addr, lt, ev.now()))
				return
			case eMapStore:
				if elem == nil {
					lines = append(lines, fmt.Sprint("m", i, en.name, en.addr.id, "=")+value(en.val, g))
				}
			}
		}
		sort.Strings(lines)
		sum := sha1.Sum([]byte(strings.Join(lines, "\n")))
		if os.Getenv("VDBG") != "" {
			println(fmt.Sprintf("VER v%x", sum[:6]), strings.Join(lines, " ## "))
		}
		out = append(out, part{g, ev.Sym(fmt.Sprintf("v%x", sum[:6]), nil)})
	}
	last := ev.lastVersion(g, func(en *entry, i int) bool {
		switch {
		case root != nil && ev.localAt(root, i):
			if en.kind == eEvent {
				return copiesInto(en, root)
			}
			if en.kind != eLoop || elem == nil {
				return false
			}
			if en.loop.scopes["elem:"+typeStr(elem)] {
				return true
			}
			for k := range en.loop.classes {
				if strings.HasPrefix(k, "i:"+typeStr(elem)+";") {
					return true
				}
			}
			for x := range en.loop.exact {
				if rootOf(x) == root {
					return true
				}
			}
			return false
		}
		return true
	})
	with(g, 0, nil, map[*Term]bool{}, "h", last)
	if len(out) > most {
		whole, out = true, nil
		with(g, 0, nil, map[*Term]bool{}, "h", last)
	}
	return Value{parts: ev.norm(out)}
}

// lastVersion is the epoch of the last entry that changed state of the kind
// rel selects among the events and loops with effects.
func (ev *Eval) lastVersion(g BDD, rel func(en *entry, i int) bool) Value {
	rem := g
	var ps []part
	for i := ev.now() - 1; i >= 0 && rem != bFalse; i-- {
		en := ev.log[i]
		switch en.kind {
		case eEvent:
			if !en.havoc {
				continue
			}
		case eLoop:
			if !en.loop.effects() {
				continue
			}
		default:
			continue
		}
		c := ev.B.And(rem, en.g)
		if c == bFalse || rel != nil && !rel(en, i) || !ev.feasible(c) {
			continue
		}
		ps = append(ps, part{c, en.epoch})
		rem = ev.B.And(rem, ev.B.Not(c))
	}
	if rem != bFalse {
		ps = append(ps, part{rem, ev.Sym("m0", nil)})
	}
	return Value{parts: ev.norm(ps)}
}

// effects: the loop changes something outside the evaluation's own memory.
func (l *LoopRec) effects() bool {
	if l.events || len(l.scopes) > 0 || len(l.classes) > 0 {
		return true
	}
	for a := range l.exact {
		if rootOf(a).op != "alloc" {
			return true
		}
	}
	return false
}

// scopeVersion is the version of state of one kind.
func (ev *Eval) scopeVersion(g BDD, key string) Value {
	return ev.lastVersion(g, func(en *entry, i int) bool {
		if en.kind == eLoop {
			return en.loop.events || en.loop.scopes["foreign"] || en.loop.scopes[key]
		}
		return en.scope == "" || en.scope == "foreign" || en.scope == key
	})
}

// contentOf is the content of the bytes x refers to at this point. For local
// memory it does not depend on which object it is.
func (ev *Eval) contentOf(op string, x *Term, to types.Type, g BDD) Value {
	r := rootOf(x)
	if op == "str" && r.op == "alloc" && x.op == "slice" && x.args[0] == r {
		if v, ok := ev.knownText(x, g); ok {
			return v
		}
	}
	var elem types.Type
	if x.typ != nil {
		if st, ok := x.typ.Underlying().(*types.Slice); ok {
			elem = st.Elem()
		}
	}
	v := ev.memVersion(g, r, elem)
	out := Value{}
	for _, p := range v.parts {
		if ev.unroll > 0 && ev.snaps[p.t] == nil {
			ev.snaps[p.t] = &snapshot{ev, ev.now(), r, elem, p.g}
		}
		if r.op == "alloc" && x.op == "slice" && x.args[0] == r {
			out.parts = append(out.parts, part{p.g, ev.mk(op, "", to, x.args[1], x.args[2], p.t)})
		} else {
			out.parts = append(out.parts, part{p.g, ev.mk(op, "", to, x, p.t)})
		}
	}
	return out
}

// knownText: a few bytes of a local array that are all constant.
func (ev *Eval) knownText(x *Term, g BDD) (Value, bool) {
	d := toLin(x.args[2]).add(toLin(x.args[1]), -1)
	if len(d.c) > 0 || d.k < 0 || d.k > 8 {
		return Value{}, false
	}
	texts := []part{{g, ev.Str("")}}
	st, ok := x.typ.Underlying().(*types.Slice)
	if !ok {
		return Value{}, false
	}
	byteT := st.Elem()
	for i := range int(d.k) {
		b := ev.loadLeaf(g, ev.iaddr(x, ev.Int(int64(i)), byteT), byteT, ev.now())
		var next []part
		for _, t := range texts {
			s, _ := t.t.constStr()
			for _, p := range b.parts {
				h := ev.B.And(t.g, p.g)
				if h == bFalse || !ev.feasible(h) {
					continue
				}
				c, ok := p.t.constInt()
				if !ok || c < 0 || c > 255 {
					return Value{}, false
				}
				next = append(next, part{h, ev.Str(s + string([]byte{byte(c)}))})
			}
		}
		if texts = next; len(texts) > 8 {
			return Value{}, false
		}
	}
	return Value{parts: ev.norm(texts)}, true
}

func (f *frame) typeAssert(in *ssa.TypeAssert) Value {
	ev := f.ev
	x := f.val(in.X)
	okc := bFalse
	var alts []Value
	T := in.AssertedType
	for _, p := range x.parts {
		g := ev.B.And(f.g, p.g)
		if g == bFalse {
			continue
		}
		switch {
		case p.t.op == "nil":
		case p.t.op == "iface":
			yes := false
			if it, ok := T.Underlying().(*types.Interface); ok {
				yes = types.Implements(p.t.ctyp, it)
				if yes {
					alts = append(alts, one(g, p.t))
				}
			} else if types.Identical(p.t.ctyp, T) {
				yes = true
				alts = append(alts, ev.unbox(g, one(g, p.t.args[0]), T))
			}
			if yes {
				okc = ev.B.Or(okc, g)
			}
		default:
			at := ev.mk("typeis", typeStr(T), nil, p.t)
			at.ctyp = T
			a := ev.atom(at)
			okc = ev.B.Or(okc, ev.B.And(g, a))
			if types.IsInterface(T) {
				alts = append(alts, one(ev.B.And(g, a), p.t))
			} else {
				r := ev.opaqueValue(T, func(t types.Type, path string) *Term {
					x := ev.mk("tassert", typeStr(T)+path, t, p.t)
					x.ctyp = T
					return x
				}, "")
				alts = append(alts, ev.restrict(r, ev.B.And(g, a)))
			}
		}
	}
	if !in.CommaOk {
		f.panicIf(ev.B.Not(okc), "failed type assertion", in)
		if len(alts) == 0 {
			return ev.zero(T)
		}
		return ev.merge(alts...)
	}
	alts = append(alts, ev.restrict(ev.zero(T), ev.B.And(f.g, ev.B.Not(okc))))
	return Value{typ: in.Type(), agg: []Value{ev.merge(alts...), ev.boolean(f.g, okc)}}
}

func pkgPathOf(fn *ssa.Function) string {
	if pk := fnPkg(fn); pk != nil {
		return pk.Path()
	}
	return ""
}

func isSuffixPkg(p, s string) bool { return p == s || strings.HasSuffix(p, "/"+s) }

func wraps(t *Term) bool {
	if t.op != "lin" {
		return false
	}
	if lo, _, ok := remainderRange(t); ok && lo >= 0 {
		return false
	}
	if t.k < 0 && len(t.args) > 0 {
		return true
	}
	for _, c := range t.coef {
		if c < 0 {
			return true
		}
	}
	return false
}

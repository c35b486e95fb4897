package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Standard library functions whose result depends only on their arguments
// (and the memory these refer to) and which have no effect.
var purePkgs = map[string]bool{
	"strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "errors": true, "math/bits": true,
	"strings": true, "bytes": true, "reflect": true, "html": true, "path": true, "net/url": true,
}

var pureFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Errorf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"time.Unix": true, "time.UnixMilli": true, "time.UnixMicro": true, "time.Parse": true, "time.ParseDuration": true, "time.Date": true, "time.ParseInLocation": true,
}

// Methods with effects in otherwise pure packages.
func impureMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		switch fn.String() {
		case "reflect.Copy":
			return true
		}
		return false
	}
	n := namedOf(r.Type())
	if n == nil {
		return true
	}
	full := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	switch full {
	case "strings.Builder", "bytes.Buffer", "strings.Reader", "bytes.Reader":
		return !isPtrReadOnly(fn.Name())
	case "reflect.Value":
		switch fn.Name() {
		case "Set", "SetBool", "SetInt", "SetUint", "SetFloat", "SetString", "SetBytes", "SetLen", "SetCap", "SetZero", "Grow", "SetMapIndex", "Call", "SetComplex", "SetPointer", "Send", "Recv", "Close", "SetIterKey", "SetIterValue", "Clear", "SetSlice", "CallSlice":
			return true
		}
	}
	return false
}

func isPtrReadOnly(n string) bool {
	switch n {
	case "Len", "Cap", "Bytes", "String", "Available":
		return true
	}
	return false
}

func (ev *Eval) modeOf(fn *ssa.Function) callMode {
	if ev.modes != nil {
		if m := ev.modes(fn); m != modeDefault {
			return m
		}
	}
	if ev.Mode != nil {
		if m := ev.Mode(fn); m != modeDefault {
			return m
		}
	}
	pk := pkgPathOf(fn)
	if len(fn.Blocks) > 0 && ev.P.InModule(fn) {
		for _, s := range ev.stack {
			if s == fn {
				return modePure // recursion: an opaque function of its arguments
			}
		}
		return modeInline
	}
	switch pk {
	case "slices", "maps", "cmp":
		if len(fn.Blocks) > 0 {
			for _, s := range ev.stack {
				if s == fn {
					return modePure
				}
			}
			return modeInline
		}
	}
	if libPure(fn) {
		return modePure
	}
	return modeEvent
}

// libPure: a library function without effects.
func libPure(fn *ssa.Function) bool {
	pk := pkgPathOf(fn)
	if pk == "time" {
		if r := fn.Signature.Recv(); r != nil && !strings.Contains(r.Type().String(), "Timer") {
			return true
		}
	}
	if pureFuncs[fn.String()] || purePkgs[pk] && !impureMethod(fn) && fn.String() != "strconv.AppendInt" {
		return true
	}
	return fn.Name() == "Error" && fn.Signature.Params().Len() == 0
}

func (f *frame) call(cc *ssa.CallCommon, in ssa.CallInstruction, res ssa.Value) Value {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, f.val(a))
	}
	return f.callWith(cc, in, f.val(cc.Value), args, res)
}

func (f *frame) callWith(cc *ssa.CallCommon, in ssa.CallInstruction, fv Value, args []Value, res ssa.Value) Value {
	ev := f.ev
	rt := cc.Signature().Results()
	if cc.IsInvoke() {
		f.nilCheck(fv, "interface "+describe(cc.Value), in)
		var alts []Value
		rest := bFalse
		g0 := f.g
		out := bFalse
		for _, p := range fv.parts {
			g := ev.B.And(g0, p.g)
			if g == bFalse {
				continue
			}
			if p.t.op == "iface" {
				if m := ev.P.Prog.LookupMethod(p.t.ctyp, cc.Method.Pkg(), cc.Method.Name()); m != nil {
					recv := ev.unbox(g, one(g, p.t.args[0]), p.t.ctyp)
					f.g = g
					v := f.dispatch(m, append([]Value{recv}, args...), nil, rt, in)
					alts = append(alts, ev.restrict(v, f.g))
					out = ev.B.Or(out, f.g)
					continue
				}
			}
			rest = ev.B.Or(rest, g)
		}
		if rest != bFalse {
			f.g = rest
			name := "invoke " + cc.Method.Name()
			if n := namedOf(cc.Value.Type()); n != nil && n.Obj().Pkg() != nil {
				name = "invoke " + n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + cc.Method.Name()
			}
			all := append([]Value{ev.restrict(fv, rest)}, args...)
			var v Value
			if pureInvoke(cc.Method.Name(), cc.Value.Type()) {
				v = f.pure(name, all, rt)
			} else {
				scope := ""
				if ev.P.foreign(cc.Value.Type()) {
					scope = "foreign"
				}
				v = f.eventIn(name, scope, nil, all, rt, in)
			}
			alts = append(alts, ev.restrict(v, rest))
			out = ev.B.Or(out, rest)
		}
		f.g = out
		if len(alts) == 0 {
			return ev.zero(resType(rt))
		}
		return ev.merge(alts...)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return f.builtin(b.Name(), cc, in, args, res)
	}
	if fn := cc.StaticCallee(); fn != nil && len(fn.FreeVars) == 0 {
		return f.dispatch(fn, args, nil, rt, in)
	}
	var alts []Value
	g0, out := f.g, bFalse
	for _, p := range fv.parts {
		g := ev.B.And(g0, p.g)
		if g == bFalse {
			continue
		}
		f.g = g
		var v Value
		switch p.t.op {
		case "func":
			v = f.dispatch(p.t.fn, args, nil, rt, in)
		case "closure":
			v = f.dispatch(p.t.fn, args, ev.closures[p.t], rt, in)
		case "nil":
			f.panicIf(bTrue, "call of nil function", in)
			continue
		default:
			f.panicIf(ev.eqTerms(p.t, ev.Nil()), "call of nil function", in)
			scope := ""
			if ev.P.callback(cc.Value) {
				scope = "foreign"
			}
			v = f.eventIn("dynamic call", scope, nil, append([]Value{one(g, p.t)}, args...), rt, in)
		}
		alts = append(alts, ev.restrict(v, f.g))
		out = ev.B.Or(out, f.g)
	}
	f.g = out
	if len(alts) == 0 {
		return ev.zero(resType(rt))
	}
	return ev.merge(alts...)
}

func pureInvoke(name string, t types.Type) bool {
	if name == "Error" || name == "String" {
		return true
	}
	return isNamed(t, "reflect", "Type") || isNamed(t, "context", "Context")
}

func resType(rt *types.Tuple) types.Type {
	if rt.Len() == 1 {
		return rt.At(0).Type()
	}
	return rt
}

func packResults(rt *types.Tuple, vs []Value) Value {
	if rt.Len() == 1 {
		return vs[0]
	}
	return Value{typ: rt, agg: append([]Value{}, vs...)}
}

func (f *frame) dispatch(fn *ssa.Function, args, bind []Value, rt *types.Tuple, in ssa.CallInstruction) Value {
	ev := f.ev
	if f.g == bFalse {
		return ev.zero(resType(rt))
	}
	if ev.alias != nil {
		fn = ev.alias(fn)
	}
	if ev.onCall != nil {
		ev.lastG = f.g
		ev.onCall(fn, shortFn(fn), args, f.g)
	}
	if v, ok := f.special(fn, args, rt, in); ok {
		return v
	}
	switch ev.modeOf(fn) {
	case modeInline:
		as := make([]Value, len(args))
		for i := range args {
			as[i] = ev.restrict(args[i], f.g)
		}
		ctx := f.ctx + ">" + fn.Name() + "@" + instrKey(in)
		ret, res := ev.inline(fn, as, bind, f.g, ctx, in.Pos())
		f.g = ret
		return packResults(rt, res)
	case modePure:
		name := ev.Alias[fn]
		if name == "" {
			name = shortFn(fn)
		}
		all := append(append([]Value{}, args...), bind...)
		if k := stateOf(fn); k != "" {
			all = append(all, ev.scopeVersion(f.g, k))
		}
		return f.pure(name, all, rt)
	}
	name := ev.Alias[fn]
	if name == "" {
		name = shortFn(fn)
	}
	return f.event(name, fn, append(args, bind...), rt, in)
}

func instrKey(in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%d.%d", b.Index, i)
		}
	}
	return fmt.Sprint(b.Index)
}

var nonNilFuncs = map[string]bool{"errors.New": true, "fmt.Errorf": true, "strings.NewReplacer": true}

// pure builds the result of an effect-free opaque call.
func (f *frame) pure(name string, args []Value, rt *types.Tuple) Value {
	ev := f.ev
	if name == "(reflect.Value).IsValid" && len(args) == 1 && args[0].typ != nil {
		// a value is valid iff it is of a kind
		if m, _, _ := types.LookupFieldOrMethod(args[0].typ, true, nil, "Kind"); m != nil {
			k := f.pure("(reflect.Value).Kind", args, m.Type().(*types.Signature).Results())
			c := bFalse
			for _, p := range k.parts {
				c = ev.B.Or(c, ev.B.And(p.g, ev.B.Not(ev.eqTerms(p.t, ev.Int(0)))))
			}
			return ev.boolean(f.g, c)
		}
	}
	flat := f.flatArgs(args)
	mk := func(i int, t types.Type, path string) Value {
		v := ev.lift(f.g, func(ts []*Term) *Term {
			c := ev.callTerm(name, i, path, t, ts)
			return c
		}, flat...)
		if isBoolType(t) {
			return ev.boolean(f.g, ev.truth(v))
		}
		return v
	}
	var expand func(i int, t types.Type, path string) Value
	expand = func(i int, t types.Type, path string) Value {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			v := Value{typ: t, agg: []Value{}}
			for j := 0; j < u.NumFields(); j++ {
				v.agg = append(v.agg, expand(i, u.Field(j).Type(), path+"."+u.Field(j).Name()))
			}
			return v
		}
		return mk(i, t, path)
	}
	var vs []Value
	for i := 0; i < rt.Len(); i++ {
		vs = append(vs, expand(i, rt.At(i).Type(), ""))
	}
	return packResults(rt, vs)
}

func (ev *Eval) callTerm(name string, i int, path string, t types.Type, ts []*Term) *Term {
	// strings.NewReplacer with constant, mutually prefix-free keys: order is irrelevant
	if name == "strings.NewReplacer" && len(ts) == 1 && ts[0].op == "list" && len(ts[0].args)%2 == 0 {
		type pr struct{ k, v *Term }
		var ps []pr
		ok := true
		for j := 0; j+1 < len(ts[0].args); j += 2 {
			if _, c := ts[0].args[j].constStr(); !c {
				ok = false
			}
			ps = append(ps, pr{ts[0].args[j], ts[0].args[j+1]})
		}
		for a := range ps {
			for b := range ps {
				x, _ := ps[a].k.constStr()
				y, _ := ps[b].k.constStr()
				if a != b && strings.HasPrefix(x, y) {
					ok = false
				}
			}
		}
		if ok {
			sort.Slice(ps, func(a, b int) bool { return ps[a].k.aux < ps[b].k.aux })
			var l []*Term
			for _, p := range ps {
				l = append(l, p.k, p.v)
			}
			ts = []*Term{ev.mk("list", "", ts[0].typ, l...)}
		}
	}
	if name == "fmt.Errorf" && len(ts) == 2 && ts[1].op == "nil" {
		if c, ok := ts[0].constStr(); ok && !strings.Contains(c, "%") {
			name, ts = "errors.New", ts[:1]
		}
	}
	if name == "(reflect.Value).Kind" && len(ts) == 1 && ts[0].op == "struct" {
		zero := true
		for _, a := range ts[0].args {
			n, isInt := a.constInt()
			zero = zero && (a.op == "nil" || isInt && n == 0)
		}
		if zero {
			return ev.Int(0) // reflect.Invalid
		}
	}
	id := fmt.Sprintf("%s#%d%s", name, i, path)
	if c := ev.foldTerms(id, ts, nil); c != nil {
		return c
	}
	c := ev.mk("call", id, t, ts...)
	if nonNilFuncs[name] {
		c.nonnil = true
	}
	return c
}

// flatArgs boxes aggregates and reads local variadic lists.
func (f *frame) flatArgs(args []Value) []Value {
	var out []Value
	for _, a := range args {
		if a.isAgg() {
			out = append(out, f.box(a, a.typ))
			continue
		}
		out = append(out, f.reify(a))
	}
	return out
}

// reify replaces a slice over a local array by the list of its elements.
func (f *frame) reify(a Value) Value {
	ev := f.ev
	need := false
	for _, p := range a.parts {
		if p.t.op == "slice" && p.t.args[0].op == "alloc" {
			need = true
		}
	}
	if !need {
		return a
	}
	var alts []Value
	for _, p := range a.parts {
		g := ev.B.And(f.g, p.g)
		if g == bFalse {
			continue
		}
		if p.t.op != "slice" || p.t.args[0].op != "alloc" {
			alts = append(alts, one(g, p.t))
			continue
		}
		lo, ok1 := p.t.args[1].constInt()
		hi, ok2 := p.t.args[2].constInt()
		if !ok1 || !ok2 || hi-lo > 24 {
			alts = append(alts, ev.contentOf("contents", p.t, p.t.typ, g))
			continue
		}
		st, _ := p.t.typ.Underlying().(*types.Slice)
		if st == nil {
			alts = append(alts, one(g, p.t))
			continue
		}
		var elems []Value
		for i := lo; i < hi; i++ {
			v := ev.load(g, one(g, ev.iaddr(p.t.args[0], ev.Int(i), st.Elem())), st.Elem())
			if v.isAgg() {
				v = f.box(v, st.Elem())
			}
			elems = append(elems, v)
		}
		alts = append(alts, ev.lift(g, func(ts []*Term) *Term {
			return ev.mk("list", "", p.t.typ, append([]*Term(nil), ts...)...)
		}, elems...))
	}
	return ev.merge(alts...)
}

// event records an opaque call with effects.
func (f *frame) event(name string, fn *ssa.Function, args []Value, rt *types.Tuple, in ssa.CallInstruction) Value {
	return f.eventIn(name, scopeOf(fn), fn, args, rt, in)
}

func (f *frame) eventIn(name, scope string, fn *ssa.Function, args []Value, rt *types.Tuple, in ssa.CallInstruction) Value {
	ev := f.ev
	i := len(ev.log)
	var mods *modSet
	if scope == "" && fn != nil && len(fn.Blocks) > 0 && ev.P.InModule(fn) && fn.Pkg == ev.P.XML && f.fn.Pkg == ev.P.XML {
		mods = ev.P.modsOf(fn)
	}
	if scope == "" || scope == "foreign" || scope == "reflect.Value" {
		ev.escape(args, i, f.g)
	}
	var alts []Value
	add := func(g BDD, id string) {
		en := &entry{kind: eEvent, g: g, name: name, fn: fn, havoc: true, pos: in.Pos(), in: f.fn, loops: ev.curLoops(), id: id, scope: scope, mods: mods, epoch: ev.Sym("m:"+id, nil)}
		for _, a := range args {
			en.args = append(en.args, ev.restrict(a, g))
		}
		ev.log = append(ev.log, en)
		var vs []Value
		for j := 0; j < rt.Len(); j++ {
			v := ev.opaqueValue(rt.At(j).Type(), func(t types.Type, path string) *Term {
				return ev.mk("result", fmt.Sprintf("%s:%d%s", id, j, path), t)
			}, "")
			vs = append(vs, ev.restrict(v, g))
		}
		if rt.Len() == 0 {
			return
		}
		if name == "(*sync.Map).LoadOrStore" && len(args) == 3 && len(vs) == 2 {
			// what was not loaded is what was stored
			loaded := ev.truth(vs[1])
			vs[0] = ev.merge(ev.restrict(vs[0], loaded), ev.restrict(ev.restrict(args[2], ev.B.Not(loaded)), g))
		}
		en.res = packResults(rt, vs)
		alts = append(alts, en.res)
	}
	rem := f.g
	if ev.guide != nil && !ev.provisional() {
		for _, m := range ev.matchEvent(f.g, name, args) {
			add(m.g, m.id)
			rem = ev.B.And(rem, ev.B.Not(m.g))
		}
		if rem != bFalse && !ev.feasible(ev.B.And(rem, ev.B.Not(ev.outside))) {
			f.g = ev.B.And(f.g, ev.B.Not(rem))
			rem = bFalse
		}
	}
	if rem != bFalse {
		cur := ev.curLoop()
		ord := 0
		for _, en := range ev.log {
			if en.kind == eEvent && en.name == name && (cur == nil || len(en.loops) > 0 && en.loops[len(en.loops)-1] == cur) {
				ord++
			}
		}
		id := fmt.Sprintf("%s#%d", name, ord)
		if cur != nil {
			id += "@" + cur.name
		}
		if ev.guide != nil && !ev.provisional() {
			id = "ref:" + id
		}
		add(rem, id)
	}
	if rt.Len() == 0 {
		return Value{typ: rt, agg: []Value{}}
	}
	return ev.merge(alts...)
}

// scopeOf: methods of these library types change only the state they manage.
func scopeOf(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	r := fn.Signature.Recv()
	if r == nil {
		switch k := fn.String(); k {
		case "reflect.New", "bufio.NewReader", "bufio.NewReaderSize", "bufio.NewWriter", "bufio.NewWriterSize":
			return k // these make something and touch nothing
		}
		return ""
	}
	n := namedOf(r.Type())
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	switch k := n.Obj().Pkg().Path() + "." + n.Obj().Name(); k {
	case "bytes.Buffer", "bufio.Writer", "bufio.Reader", "strings.Reader", "bytes.Reader", "sync.Map", "sync.Pool":
		return k
	case "os.File":
		if fn.Name() == "Close" {
			return k
		}
	case "reflect.Value":
		if fn.Name() == "Call" || fn.Name() == "CallSlice" {
			return ""
		}
		return k
	}
	return ""
}

// stateOf: the state an effect-free library method reads.
func stateOf(fn *ssa.Function) string {
	k := scopeOf(fn)
	if k == "reflect.Value" {
		switch fn.Name() {
		case "Kind", "Type", "NumField", "Field", "CanAddr", "CanSet", "CanInterface", "IsValid", "Addr", "OverflowInt", "OverflowUint", "OverflowFloat", "CanConvert", "Comparable":
			return ""
		}
	}
	return k
}

func (f *frame) builtin(name string, cc *ssa.CallCommon, in ssa.CallInstruction, args []Value, res ssa.Value) Value {
	ev := f.ev
	switch name {
	case "len", "cap":
		t := cc.Args[0].Type()
		u := t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if a, ok := u.(*types.Array); ok {
			return one(f.g, ev.Int(a.Len()))
		}
		if _, ok := u.(*types.Map); ok && name == "len" {
			return ev.lift(f.g, func(ts []*Term) *Term {
				return ev.mk("len", "", types.Typ[types.Int], ts[0], ts[1])
			}, args[0], ev.memVersion(f.g, nil, nil))
		}
		return ev.lift(f.g, func(ts []*Term) *Term {
			if name == "cap" {
				return ev.mk("cap", "", types.Typ[types.Int], ts[0])
			}
			return ev.lenT(ts[0], t)
		}, args[0])
	case "append":
		s, x := args[0], args[1]
		x = f.reify(x)
		if s.parts == nil {
			return Value{}
		}
		if noRoom(cc.Args[0]) {
			s = one(f.g, ev.mk("list", "", cc.Args[0].Type()))
		}
		if v, ok := f.shift(s, x, in); ok {
			return v
		}
		return ev.lift(f.g, func(ts []*Term) *Term {
			s, x := ts[0], ts[1]
			if x.op == "nil" {
				return s
			}
			if s.op == "nil" && isAttrList(res.Type()) && grown(x) {
				return x // a copy of what nobody else holds
			}
			if c := ev.cloneT(s, x, res.Type()); c != nil {
				return c
			}
			if x.op == "list" {
				if s.op == "nil" || s.op == "list" && len(s.args) == 0 {
					return x
				}
				if s.op == "list" {
					return ev.mk("list", "", s.typ, append(append([]*Term(nil), s.args...), x.args...)...)
				}
				if s.op == "append" && s.args[1].op == "list" {
					l := ev.mk("list", "", x.typ, append(append([]*Term(nil), s.args[1].args...), x.args...)...)
					return ev.mk("append", "", res.Type(), s.args[0], l)
				}
			}
			return ev.mk("append", "", res.Type(), s, x)
		}, s, x)
	case "copy":
		st, _ := cc.Args[0].Type().Underlying().(*types.Slice)
		if v, ok := f.copyConst(args, st, in); ok {
			return v
		}
		if v, ok := f.copyFresh(args, st, in); ok {
			return v
		}
		f.eventIn("copy", "elem:"+typeStr(st.Elem()), nil, args, types.NewTuple(), in)
		return ev.lift(f.g, func(ts []*Term) *Term {
			return ev.mk("copylen", "", types.Typ[types.Int], ts[0], ts[1])
		}, args[0], args[1])
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		k := f.boxKey(args[1], mt.Key())
		addr := ev.lift(f.g, func(ts []*Term) *Term { return ev.mk("mapaddr", "", nil, ts[0], ts[1]) }, args[0], k)
		for _, p := range addr.parts {
			ev.log = append(ev.log, &entry{kind: eMapStore, name: "delete", g: p.g, addr: p.t, val: one(p.g, ev.Nil()), pos: in.Pos(), in: f.fn, loops: ev.curLoops()})
		}
		return Value{typ: types.NewTuple(), agg: []Value{}}
	case "min", "max":
		v := args[0]
		for _, w := range args[1:] {
			a, b := v, w
			c := ev.truth(f.binop(token.LSS, a, b, res.Type(), types.Typ[types.Bool], in))
			if name == "max" {
				c = ev.B.Not(c)
			}
			v = ev.merge(ev.restrict(a, ev.B.And(f.g, c)), ev.restrict(b, ev.B.And(f.g, ev.B.Not(c))))
		}
		return v
	case "ssa:wrapnilchk":
		f.nilCheck(args[0], "receiver", in)
		return ev.restrict(args[0], f.g)
	case "print", "println":
		return Value{typ: types.NewTuple(), agg: []Value{}}
	case "clear":
		return f.event("clear", nil, args, types.NewTuple(), in)
	}
	panic("undecided: builtin " + name + " in " + f.fn.String())
}

// isAttrList: a list of attributes.
func isAttrList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n := namedOf(s.Elem())
	return n != nil && n.Obj().Name() == "Attr" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "xml"
}

// cloneT: bytes appended to nothing are a copy of them.
func (ev *Eval) cloneT(s, x *Term, t types.Type) *Term {
	if s.op != "nil" && (s.op != "list" || len(s.args) != 0) || x.op == "list" || x.typ == nil {
		return nil
	}
	st, ok := x.typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	if b, ok := st.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
		return nil
	}
	return ev.mk("call", "bytes.Clone#0", types.NewSlice(types.Typ[types.Byte]), x)
}

// noRoom: a slice of an array without elements.
func noRoom(v ssa.Value) bool {
	if c, ok := v.(*ssa.ChangeType); ok {
		v = c.X
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	arr, ok := deref(a.Type()).Underlying().(*types.Array)
	return ok && arr.Len() == 0
}

// grown: the list was made by appending to nothing.
func grown(x *Term) bool {
	for x.op == "append" {
		x = x.args[0]
	}
	return x.op == "nil" || x.op == "list"
}

// copyFresh: a list made as long as another and filled from it at once is
// that list appended to nothing.
func (f *frame) copyFresh(args []Value, st *types.Slice, in ssa.CallInstruction) (Value, bool) {
	ev := f.ev
	m, ok := in.Common().Args[0].(*ssa.MakeSlice)
	if !ok || st == nil || m.Block() != in.Block() || len(args[0].parts) == 0 || len(args[1].parts) == 0 {
		return Value{}, false
	}
	after := map[ssa.Instruction]bool{}
	seen := false
	for _, i := range in.Block().Instrs {
		if i == ssa.Instruction(in) {
			seen = true
		} else if seen {
			after[i] = true
		}
	}
	for _, u := range *m.Referrers() {
		if u != ssa.Instruction(in) && u.Block() == in.Block() && !after[u] {
			return Value{}, false
		}
	}
	t := in.Common().Args[0].Type()
	base := ev.mk("list", "", t)
	if isAttrList(t) {
		base = ev.Nil()
	}
	for _, d := range args[0].parts {
		if d.t.op != "slice" || d.t.args[0].op != "alloc" {
			return Value{}, false
		}
		for _, x := range args[1].parts {
			if g := ev.B.And(f.g, d.g, x.g); g != bFalse && ev.feasible(g) && ev.eqTerms(d.t.args[2], ev.lenT(x.t, types.Typ[types.Int])) != bTrue {
				return Value{}, false
			}
		}
	}
	f.env[m] = ev.lift(f.g, func(ts []*Term) *Term {
		x := ts[0]
		switch {
		case x.op == "nil":
			return base
		case x.op == "list":
			return x
		case base.op == "nil" && grown(x):
			return x
		}
		if c := ev.cloneT(base, x, t); c != nil {
			return c
		}
		return ev.mk("append", "", t, base, x)
	}, f.reify(args[1]))
	return ev.lift(f.g, func(ts []*Term) *Term { return ev.lenT(ts[0], types.Typ[types.Int]) }, args[1]), true
}

// shift: append(x[:i], x[j:]...) moves the rest of x down and shortens it.
// copyConst: a short constant text copied where there is room for it is
// stored byte by byte.
func (f *frame) copyConst(args []Value, st *types.Slice, in ssa.CallInstruction) (Value, bool) {
	ev := f.ev
	if st == nil || len(args) != 2 || len(args[1].parts) != 1 || len(args[0].parts) == 0 {
		return Value{}, false
	}
	x := args[1].parts[0].t
	if x.op == "bytes" {
		x = x.args[0]
	}
	c, ok := x.constStr()
	if !ok || len(c) > 8 {
		return Value{}, false
	}
	for _, p := range args[0].parts {
		if p.t.op != "slice" || rootOf(p.t).op != "alloc" {
			return Value{}, false
		}
		room := toLin(p.t.args[2]).add(toLin(p.t.args[1]), -1)
		short := room.add(linear{k: 1 - int64(len(c))}, 1) // room + 1 - n <= 0
		if g := ev.B.And(f.g, p.g, ev.le0(short)); g != bFalse && ev.feasible(g) {
			return Value{}, false
		}
	}
	for i := len(c) - 1; i >= 0; i-- { // as texts are built from their ends here
		addr := ev.lift(f.g, func(ts []*Term) *Term { return ev.iaddr(ts[0], ev.Int(int64(i)), st.Elem()) }, args[0])
		ev.store(f.g, addr, one(f.g, ev.Int(int64(c[i]))), st.Elem(), in)
	}
	return one(f.g, ev.Int(int64(len(c)))), true
}

func (f *frame) shift(s, x Value, in ssa.CallInstruction) (Value, bool) {
	ev := f.ev
	if len(s.parts) != 1 || len(x.parts) != 1 {
		return Value{}, false
	}
	a, b := s.parts[0].t, x.parts[0].t
	if a.op != "slice" || b.op != "slice" || len(a.args) != 3 || len(b.args) != 3 || a.args[0] != b.args[0] || b.args[2] != ev.lenT(b.args[0], a.typ) {
		return Value{}, false
	}
	st, ok := a.typ.Underlying().(*types.Slice)
	if !ok {
		return Value{}, false
	}
	base, i, j, n := a.args[0], a.args[2], b.args[1], b.args[2]
	f.eventIn("copy", "elem:"+typeStr(st.Elem()), nil, []Value{one(f.g, ev.sliceT(base, i, n, a.typ)), one(f.g, b)}, types.NewTuple(), in)
	hi := ev.fromLin2(toLin(i).add(toLin(n), 1).add(toLin(j), -1))
	return one(f.g, ev.sliceT(base, a.args[1], hi, a.typ)), true
}

// special models library calls with a known normal form.
func (f *frame) special(fn *ssa.Function, args []Value, rt *types.Tuple, in ssa.CallInstruction) (Value, bool) {
	ev := f.ev
	itoa := func(v Value) Value {
		return ev.lift(f.g, func(ts []*Term) *Term {
			if n, ok := ts[0].constInt(); ok {
				return ev.Str(fmt.Sprint(n))
			}
			return ev.mk("itoa", "", types.Typ[types.String], ts[0])
		}, v)
	}
	base10 := func(v Value) bool {
		n, ok := v.parts[0].t.constInt()
		return len(v.parts) == 1 && ok && n == 10
	}
	if o := fn.Origin(); o != nil && o.String() == "slices.Clone" && args[0].parts != nil {
		if st, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice); ok && types.Identical(st.Elem().Underlying(), types.Typ[types.Byte]) {
			bt := types.NewSlice(types.Typ[types.Byte])
			return f.pure("bytes.Clone", args, types.NewTuple(types.NewVar(token.NoPos, nil, "", bt))), true
		}
	}
	if o := fn.Origin(); o != nil && fn.Signature.Params().Len() > 0 && isAttrList(fn.Signature.Params().At(0).Type()) && len(args) > 0 && args[0].parts != nil {
		switch o.String() {
		case "slices.Grow", "slices.Clip":
			return ev.restrict(args[0], f.g), true
		case "slices.Clone":
			return ev.lift(f.g, func(ts []*Term) *Term {
				if x := ts[0]; x.op == "nil" || grown(x) {
					return x
				}
				return ev.mk("append", "", args[0].typ, ev.Nil(), ts[0])
			}, f.reify(args[0])), true
		}
	}
	if o := fn.Origin(); o != nil && o.String() == "slices.Delete" && len(args) == 3 && len(args[0].parts) == 1 && len(args[1].parts) == 1 && len(args[2].parts) == 1 {
		b, i, j := args[0].parts[0].t, args[1].parts[0].t, args[2].parts[0].t
		if i != j {
			t := fn.Params[0].Type()
			return f.shift(one(f.g, ev.sliceT(b, ev.Int(0), i, t)), one(f.g, ev.sliceT(b, j, ev.lenT(b, t), t)), in)
		}
	}
	switch fn.String() {
	case "(*bytes.Buffer).Len", "(*bytes.Buffer).String":
		// what Bytes gives, measured or copied
		bt := types.NewSlice(types.Typ[types.Byte])
		all := append(append([]Value{}, args...), ev.scopeVersion(f.g, "bytes.Buffer"))
		v := f.pure("(*bytes.Buffer).Bytes", all, types.NewTuple(types.NewVar(token.NoPos, nil, "", bt)))
		if fn.Name() == "String" {
			return f.convert(v, bt, types.Typ[types.String]), true
		}
		return ev.lift(f.g, func(ts []*Term) *Term { return ev.lenT(ts[0], bt) }, v), true
	case "strconv.Itoa":
		return itoa(args[0]), true
	case "strconv.FormatInt", "strconv.FormatUint":
		if base10(args[1]) {
			return itoa(args[0]), true
		}
	case "fmt.Sprintf":
		return f.sprintf(args)
	case "time.UnixMilli", "time.UnixMicro":
		// UnixMilli(x) is Unix(x/1e3, (x%1e3)*1e6); UnixMicro(x) is Unix(x/1e6, (x%1e6)*1e3)
		unit := int64(1000)
		if fn.Name() == "UnixMicro" {
			unit = 1000000
		}
		i64 := types.Typ[types.Int64]
		part := func(op token.Token, scale int64) Value {
			return ev.lift(f.g, func(ts []*Term) *Term {
				return ev.arith(token.MUL, ev.arith(op, ts[0], ev.Int(unit), i64), ev.Int(scale), i64)
			}, args[0])
		}
		return f.pure("time.Unix", []Value{part(token.QUO, 1), part(token.REM, 1000000000/unit)}, rt), true
	case "strings.Join":
		// Join(append(Split(s, sep), x), sep) is s + sep + x for a non-empty separator
		v := ev.lift(f.g, func(ts []*Term) *Term {
			l, sep := ts[0], ts[1]
			if c, ok := sep.constStr(); ok && c != "" && l.op == "append" && l.args[1].op == "list" && len(l.args[1].args) == 1 && l.args[0].op == "call" && l.args[0].aux == "strings.Split#0" && l.args[0].args[1] == sep {
				return ev.concat(l.args[0].args[0], sep, l.args[1].args[0])
			}
			return ev.callTerm("strings.Join", 0, "", types.Typ[types.String], ts)
		}, f.flatArgs(args)...)
		return v, true
	case "strings.ReplaceAll":
		rt2 := rt
		return f.pure("strings.Replace", append(append([]Value{}, args...), scalar(ev.Int(-1))), rt2), true
	case "math.Inf":
		if n, ok := args[0].parts[0].t.constInt(); ok && len(args[0].parts) == 1 {
			if n >= 0 {
				return one(f.g, ev.mk("inf", "+", types.Typ[types.Float64])), true
			}
			return one(f.g, ev.mk("inf", "-", types.Typ[types.Float64])), true
		}
	case "math.IsInf":
		n, ok := args[1].parts[0].t.constInt()
		if ok && len(args[1].parts) == 1 && n != 0 {
			s := "+"
			if n < 0 {
				s = "-"
			}
			c := ev.eqValues(f.g, args[0], scalar(ev.mk("inf", s, types.Typ[types.Float64])))
			return ev.boolean(f.g, c), true
		}
	case "unicode/utf8.RuneLen", "unicode/utf8.ValidRune":
	}
	if v, ok := f.memberFunc(fn, args); ok {
		return v, true
	}
	if v, ok := f.bytesFunc(fn, args); ok {
		return v, true
	}
	if v, ok := f.stringFunc(fn, args, rt); ok {
		return v, true
	}
	if r := fn.Signature.Recv(); r != nil && isNamed(r.Type(), "strings", "Builder") {
		return f.builderCall(fn, args, rt, in)
	}
	return Value{}, false
}

// builderCall models strings.Builder as one string cell.
func (f *frame) builderCall(fn *ssa.Function, args []Value, rt *types.Tuple, in ssa.CallInstruction) (Value, bool) {
	ev := f.ev
	cell := ev.lift(f.g, func(ts []*Term) *Term {
		return ev.mk("faddr", "strings.Builder#content", types.NewPointer(types.Typ[types.String]), ts[0])
	}, args[0])
	strT := types.Typ[types.String]
	app := func(x Value) {
		old := ev.load(f.g, cell, strT)
		ev.store(f.g, cell, ev.lift(f.g, func(ts []*Term) *Term { return ev.concat(ts[0], ts[1]) }, old, x), strT, in)
	}
	n := func(x Value) Value {
		if rt.Len() == 0 {
			return Value{typ: rt, agg: []Value{}}
		}
		l := ev.lift(f.g, func(ts []*Term) *Term { return ev.lenT(ts[0], strT) }, x)
		return Value{typ: rt, agg: []Value{l, scalar(ev.Nil())}}
	}
	switch fn.Name() {
	case "WriteString":
		app(args[1])
		return n(args[1]), true
	case "WriteByte":
		x := ev.lift(f.g, func(ts []*Term) *Term {
			if c, ok := ts[0].constInt(); ok {
				return ev.Str(string([]byte{byte(c)}))
			}
			return ev.mk("bytestr", "", strT, ts[0])
		}, args[1])
		app(x)
		return one(f.g, ev.Nil()), true
	case "WriteRune":
		x := ev.lift(f.g, func(ts []*Term) *Term {
			if c, ok := ts[0].constInt(); ok {
				return ev.Str(string(rune(c)))
			}
			return ev.mk("runestr", "", strT, ts[0])
		}, args[1])
		app(x)
		return n(x), true
	case "String":
		return ev.load(f.g, cell, strT), true
	case "Grow":
		return Value{typ: rt, agg: []Value{}}, true
	case "Reset":
		ev.store(f.g, cell, scalar(ev.Str("")), strT, in)
		return Value{typ: rt, agg: []Value{}}, true
	case "Len":
		return ev.lift(f.g, func(ts []*Term) *Term { return ev.lenT(ts[0], strT) }, ev.load(f.g, cell, strT)), true
	}
	return Value{}, false
}

// sprintf expands the verbs whose rendering is plain concatenation.
func (f *frame) sprintf(args []Value) (Value, bool) {
	ev := f.ev
	lst := f.reify(args[1])
	ok := true
	v := ev.lift(f.g, func(ts []*Term) *Term {
		format, c := ts[0].constStr()
		if !c || ts[1].op != "list" && ts[1].op != "nil" {
			ok = false
			return nil
		}
		var parts []*Term
		ai := 0
		for i := 0; i < len(format); i++ {
			if format[i] != '%' {
				parts = append(parts, ev.Str(format[i:i+1]))
				continue
			}
			i++
			if i >= len(format) {
				ok = false
				return nil
			}
			if format[i] == '%' {
				parts = append(parts, ev.Str("%"))
				continue
			}
			if ai >= len(ts[1].args) {
				ok = false
				return nil
			}
			a := ts[1].args[ai]
			ai++
			if a.op != "iface" {
				ok = false
				return nil
			}
			hasMethods := types.NewMethodSet(a.ctyp).Len() > 0
			switch {
			case (format[i] == 'd' || format[i] == 'v' && !hasMethods) && isIntType(a.ctyp):
				if n, c := a.args[0].constInt(); c {
					parts = append(parts, ev.Str(fmt.Sprint(n)))
				} else {
					parts = append(parts, ev.mk("itoa", "", types.Typ[types.String], a.args[0]))
				}
			case (format[i] == 's' || format[i] == 'v') && !hasMethods && isStringType(a.ctyp):
				parts = append(parts, a.args[0])
			default:
				ok = false
				return nil
			}
		}
		if ai != len(ts[1].args) {
			ok = false
			return nil
		}
		return ev.concat(parts...)
	}, args[0], lst)
	if !ok {
		return Value{}, false
	}
	return v, true
}

var _ = constant.MakeBool

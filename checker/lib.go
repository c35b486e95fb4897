package main

import (
	"go/constant"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Normal forms of string functions: searches become Index or LastIndex of a
// string, cuts and trims become slices guarded by searches.

var intT = types.Typ[types.Int]

// index is Index(s, sep) or LastIndex(s, sep).
func (f *frame) index(name string, s, sep Value) Value {
	ev := f.ev
	return ev.lift(f.g, func(ts []*Term) *Term {
		return ev.callTerm(name, 0, "", intT, ts)
	}, s, sep)
}

// runeArg turns a constant byte or rune argument into a one-character string.
func (f *frame) runeArg(v Value, limit int64) (Value, bool) {
	if v.isAgg() || len(v.parts) != 1 {
		return Value{}, false
	}
	n, ok := v.parts[0].t.constInt()
	if !ok || n < 0 || n >= limit || !utf8.ValidRune(rune(n)) || n == utf8.RuneError {
		return Value{}, false
	}
	return one(v.parts[0].g, f.ev.Str(string(rune(n)))), true
}

func (f *frame) atLeast0(v Value) BDD {
	ev := f.ev
	c := bFalse
	for _, p := range v.parts {
		c = ev.B.Or(c, ev.B.And(p.g, ev.B.Not(ev.le0(toLin(p.t).add(linear{k: 1}, 1)))))
	}
	return ev.B.And(f.g, c)
}

// hasAffix: s begins (or ends) with affix, spelled out for a short constant.
func (f *frame) hasAffix(suffix bool, s, affix Value) (BDD, bool) {
	ev := f.ev
	name := "strings.HasPrefix"
	if suffix {
		name = "strings.HasSuffix"
	}
	if len(affix.parts) == 1 {
		if c, ok := affix.parts[0].t.constStr(); ok && len(c) <= 8 {
			res := bFalse
			for _, p := range s.parts {
				if x, con := p.t.constStr(); con {
					if !suffix && strings.HasPrefix(x, c) || suffix && strings.HasSuffix(x, c) {
						res = ev.B.Or(res, p.g)
					}
					continue
				}
				n := ev.lenT(p.t, intT)
				b := ev.le0(linear{k: int64(len(c))}.add(toLin(n), -1))
				for i := 0; i < len(c); i++ {
					at := ev.Int(int64(i))
					if suffix {
						at = ev.fromLin2(toLin(n).add(linear{k: int64(i - len(c))}, 1))
					}
					b = ev.B.And(b, ev.eqTerms(ev.indexT(p.t, at, types.Universe.Lookup("byte").Type()), ev.Int(int64(c[i]))))
				}
				res = ev.B.Or(res, ev.B.And(p.g, b))
			}
			return ev.B.And(f.g, res), true
		}
	}
	v := ev.lift(f.g, func(ts []*Term) *Term { return ev.callTerm(name, 0, "", types.Typ[types.Bool], ts) }, s, affix)
	return ev.B.And(f.g, ev.truth(v)), true
}

// sameBytes: from byte at on, the slice x holds the bytes of c.
func (f *frame) sameBytes(g BDD, x, at *Term, c string) BDD {
	ev := f.ev
	byteT := types.Universe.Lookup("byte").Type()
	b := g
	for i := 0; i < len(c) && b != bFalse; i++ {
		a := ev.iaddr(x, ev.fromLin2(toLin(at).add(linear{k: int64(i)}, 1)), byteT)
		v := ev.load(b, one(b, a), byteT)
		eq := bFalse
		for _, p := range v.parts {
			eq = ev.B.Or(eq, ev.B.And(p.g, ev.eqTerms(p.t, ev.Int(int64(c[i])))))
		}
		b = ev.B.And(b, eq)
	}
	return b
}

// bytesFunc spells out comparisons with a short constant.
func (f *frame) bytesFunc(fn *ssa.Function, args []Value) (Value, bool) {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != "bytes" || fn.Signature.Recv() != nil || len(args) != 2 {
		return Value{}, false
	}
	ev := f.ev
	con := func(v Value) (string, bool) {
		if v.isAgg() || len(v.parts) != 1 || v.parts[0].t.op != "bytes" {
			return "", false
		}
		c, ok := v.parts[0].t.args[0].constStr()
		return c, ok && len(c) <= 8
	}
	x := args[0]
	c, ok := con(args[1])
	if !ok && fn.Name() == "Equal" {
		x = args[1]
		c, ok = con(args[0])
	}
	if !ok || x.isAgg() {
		return Value{}, false
	}
	res := bFalse
	for _, p := range x.parts {
		g := ev.B.And(f.g, p.g)
		if s, ok := con(one(g, p.t)); ok {
			if fn.Name() == "Equal" && s == c || fn.Name() == "HasPrefix" && strings.HasPrefix(s, c) || fn.Name() == "HasSuffix" && strings.HasSuffix(s, c) {
				res = ev.B.Or(res, g)
			}
			continue
		}
		n := toLin(ev.lenT(p.t, intT))
		at := ev.Int(0)
		fits := ev.le0(linear{k: int64(len(c))}.add(n, -1))
		switch fn.Name() {
		case "Equal":
			fits = ev.eqTerms(ev.fromLin2(n), ev.Int(int64(len(c))))
		case "HasPrefix":
		case "HasSuffix":
			at = ev.fromLin2(n.add(linear{k: -int64(len(c))}, 1))
		default:
			return Value{}, false
		}
		res = ev.B.Or(res, f.sameBytes(ev.B.And(g, fits), p.t, at, c))
	}
	return ev.boolean(f.g, res), true
}

// memberFunc spells out the search for a value in a fixed list of values.
func (f *frame) memberFunc(fn *ssa.Function, args []Value) (Value, bool) {
	if len(args) != 2 || args[0].isAgg() || len(args[0].parts) != 1 {
		return Value{}, false
	}
	ev := f.ev
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	list := args[0].parts[0].t
	var elems []Value
	switch name {
	case "strings.IndexByte", "bytes.IndexByte", "strings.IndexRune", "strings.ContainsRune":
		if list.op == "bytes" {
			list = list.args[0]
		}
		s, ok := list.constStr()
		if !ok || len(s) > 64 {
			return Value{}, false
		}
		if args[1].isAgg() || len(args[1].parts) == 1 && args[1].parts[0].t.op == "const" {
			return Value{}, false
		}
		for i := 0; i < len(s); i++ {
			if s[i] >= utf8.RuneSelf {
				return Value{}, false
			}
			elems = append(elems, scalar(ev.Int(int64(s[i]))))
		}
	case "slices.Contains", "slices.Index":
		st, ok := fn.Params[0].Type().Underlying().(*types.Slice)
		if !ok {
			return Value{}, false
		}
		if _, ok := st.Elem().Underlying().(*types.Basic); !ok || isFloatType(st.Elem()) {
			return Value{}, false
		}
		n, ok := ev.lenT(list, st).constInt()
		if !ok || n > 64 {
			return Value{}, false
		}
		for i := int64(0); i < n; i++ {
			elems = append(elems, ev.load(f.g, one(f.g, ev.iaddr(list, ev.Int(i), st.Elem())), st.Elem()))
		}
	default:
		return Value{}, false
	}
	rem := f.g
	var alts []Value
	for i, x := range elems {
		c := ev.B.And(rem, ev.eqValues(rem, x, args[1]))
		if c == bFalse {
			continue
		}
		alts = append(alts, one(c, ev.Int(int64(i))))
		rem = ev.B.And(rem, ev.B.Not(c))
	}
	if fn.Name() == "ContainsRune" || strings.HasPrefix(name, "slices.Contains") {
		return ev.boolean(f.g, ev.B.And(f.g, ev.B.Not(rem))), true
	}
	if rem != bFalse {
		alts = append(alts, one(rem, ev.Int(-1)))
	}
	return ev.merge(alts...), true
}

// part of s from lo to hi, where both are functions of the terms.
func (f *frame) substr(g BDD, s, aux Value, bounds func(n linear, aux *Term) (lo, hi linear)) Value {
	ev := f.ev
	return ev.lift(g, func(ts []*Term) *Term {
		n := toLin(ev.lenT(ts[0], intT))
		lo, hi := bounds(n, ts[1])
		l, h := ev.fromLin(lo, intT), ev.fromLin(hi, intT)
		if len(lo.c) == 0 {
			l = ev.Int(lo.k)
		}
		if len(hi.c) == 0 {
			h = ev.Int(hi.k)
		}
		return ev.sliceT(ts[0], l, h, types.Typ[types.String])
	}, ev.restrict(s, g), ev.restrict(aux, g))
}

func (f *frame) stringFunc(fn *ssa.Function, args []Value, rt *types.Tuple) (Value, bool) {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != "strings" || fn.Signature.Recv() != nil {
		return Value{}, false
	}
	for _, a := range args {
		if a.isAgg() {
			return Value{}, false
		}
	}
	ev := f.ev
	zero := linear{}
	empty := one(f.g, ev.Str(""))
	switch fn.Name() {
	case "IndexByte", "IndexRune", "LastIndexByte":
		limit := int64(utf8.MaxRune + 1)
		name := "strings.Index"
		if fn.Name() != "IndexRune" {
			limit = utf8.RuneSelf
		}
		if fn.Name() == "LastIndexByte" {
			name = "strings.LastIndex"
		}
		if c, ok := f.runeArg(args[1], limit); ok {
			return f.index(name, args[0], c), true
		}
	case "Index", "LastIndex":
		return f.index("strings."+fn.Name(), args[0], args[1]), true
	case "Contains":
		return ev.boolean(f.g, f.atLeast0(f.index("strings.Index", args[0], args[1]))), true
	case "ContainsRune":
		if c, ok := f.runeArg(args[1], utf8.MaxRune+1); ok {
			return ev.boolean(f.g, f.atLeast0(f.index("strings.Index", args[0], c))), true
		}
	case "HasPrefix", "HasSuffix":
		if c, ok := f.hasAffix(fn.Name() == "HasSuffix", args[0], args[1]); ok {
			return ev.boolean(f.g, c), true
		}
	case "TrimPrefix", "TrimSuffix", "CutPrefix", "CutSuffix":
		suffix := strings.HasSuffix(fn.Name(), "Suffix")
		c, ok := f.hasAffix(suffix, args[0], args[1])
		if !ok {
			break
		}
		rest := f.substr(c, args[0], args[1], func(n linear, aux *Term) (linear, linear) {
			l := toLin(ev.lenT(aux, intT))
			if suffix {
				return zero, n.add(l, -1)
			}
			return l, n
		})
		v := ev.merge(rest, ev.restrict(args[0], ev.B.And(f.g, ev.B.Not(c))))
		if strings.HasPrefix(fn.Name(), "Trim") {
			return v, true
		}
		return Value{typ: rt, agg: []Value{v, ev.boolean(f.g, c)}}, true
	case "Cut":
		i := f.index("strings.Index", args[0], args[1])
		c := f.atLeast0(i)
		no := ev.B.And(f.g, ev.B.Not(c))
		before := f.substr(c, args[0], i, func(n linear, i *Term) (linear, linear) { return zero, toLin(i) })
		both := ev.lift(c, func(ts []*Term) *Term { // i + len(sep)
			return ev.fromLin(toLin(ts[0]).add(toLin(ev.lenT(ts[1], intT)), 1), intT)
		}, ev.restrict(i, c), ev.restrict(args[1], c))
		after := f.substr(c, args[0], both, func(n linear, at *Term) (linear, linear) { return toLin(at), n })
		return Value{typ: rt, agg: []Value{
			ev.merge(before, ev.restrict(args[0], no)),
			ev.merge(after, ev.restrict(empty, no)),
			ev.boolean(f.g, c),
		}}, true
	}
	return Value{}, false
}

// foldCall evaluates a library function of constants.
func foldCall(name string, ts []constant.Value) constant.Value {
	str := func(i int) (string, bool) {
		if i < len(ts) && ts[i] != nil && ts[i].Kind() == constant.String {
			return constant.StringVal(ts[i]), true
		}
		return "", false
	}
	a, ok := str(0)
	if !ok {
		return nil
	}
	if len(ts) == 1 {
		switch name {
		case "strings.ToLower#0":
			return constant.MakeString(strings.ToLower(a))
		case "strings.ToUpper#0":
			return constant.MakeString(strings.ToUpper(a))
		case "strings.TrimSpace#0":
			return constant.MakeString(strings.TrimSpace(a))
		}
		return nil
	}
	b, ok := str(1)
	if !ok || len(ts) != 2 {
		return nil
	}
	switch name {
	case "strings.EqualFold#0":
		return constant.MakeBool(strings.EqualFold(a, b))
	case "strings.Index#0":
		return constant.MakeInt64(int64(strings.Index(a, b)))
	case "strings.LastIndex#0":
		return constant.MakeInt64(int64(strings.LastIndex(a, b)))
	case "strings.Count#0":
		return constant.MakeInt64(int64(strings.Count(a, b)))
	case "strings.HasPrefix#0":
		return constant.MakeBool(strings.HasPrefix(a, b))
	case "strings.HasSuffix#0":
		return constant.MakeBool(strings.HasSuffix(a, b))
	case "strings.TrimPrefix#0":
		return constant.MakeString(strings.TrimPrefix(a, b))
	case "strings.TrimSuffix#0":
		return constant.MakeString(strings.TrimSuffix(a, b))
	case "strings.ContainsAny#0":
		return constant.MakeBool(strings.ContainsAny(a, b))
	case "strings.Trim#0":
		return constant.MakeString(strings.Trim(a, b))
	case "strings.TrimLeft#0":
		return constant.MakeString(strings.TrimLeft(a, b))
	case "strings.TrimRight#0":
		return constant.MakeString(strings.TrimRight(a, b))
	}
	return nil
}

// searchResult: t is what a search or a count of the library gives.
func searchResult(t *Term) (count, index bool) {
	if t.op != "call" {
		return false, false
	}
	switch t.aux {
	case "strings.Count#0", "bytes.Count#0", "unicode/utf8.RuneCountInString#0", "unicode/utf8.RuneCount#0", "(*bytes.Buffer).Len#0":
		return true, false
	case "strings.Index#0", "strings.LastIndex#0", "strings.IndexByte#0", "strings.LastIndexByte#0", "strings.IndexAny#0", "strings.IndexRune#0", "strings.IndexFunc#0",
		"bytes.Index#0", "bytes.LastIndex#0", "bytes.IndexByte#0", "bytes.IndexAny#0", "bytes.IndexRune#0":
		return false, true
	}
	return false, false
}

// foldTerms folds a call of constants; rep maps terms to their representatives.
func (e *Engine) foldTerms(id string, ts []*Term, rep func(*Term) *Term) *Term {
	if !strings.HasPrefix(id, "strings.") || len(ts) == 0 || len(ts) > 2 {
		return nil
	}
	var cs []constant.Value
	for _, t := range ts {
		if rep != nil {
			t = rep(t)
		}
		if t.op != "const" || t.val == nil {
			return nil
		}
		cs = append(cs, t.val)
	}
	v := foldCall(id, cs)
	if v == nil {
		return nil
	}
	switch v.Kind() {
	case constant.Bool:
		return e.Bool(constant.BoolVal(v))
	case constant.Int:
		n, _ := constant.Int64Val(v)
		return e.Int(n)
	}
	return e.Str(constant.StringVal(v))
}

package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fields of unexported name that only ever hold a few constants: every store
// to the field in the module is a constant, or a parameter of an unexported
// function that every call site passes a constant for.

type fieldKey struct {
	st  *types.Struct
	idx int
}

// fieldRange is the least interval holding the values of an integer field.
func (p *Program) fieldRange(st *types.Struct, idx int) (lo, hi int64, ok bool) {
	if p.fieldRanges == nil {
		p.collectFields()
	}
	r := p.fieldRanges[fieldKey{st, idx}]
	if r == nil || r.open {
		return 0, 0, false
	}
	return r.lo, r.hi, true
}

type valueRange struct {
	lo, hi int64 // zero is always in
	open   bool
}

func (p *Program) collectFields() {
	p.fieldRanges = map[fieldKey]*valueRange{}
	calls := map[*ssa.Function][]*ssa.CallCommon{}
	escaped := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if isSpecFunc(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var common *ssa.CallCommon
				if c, ok := in.(ssa.CallInstruction); ok {
					common = c.Common()
					if f := common.StaticCallee(); f != nil {
						calls[f] = append(calls[f], common)
					}
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if f, ok := (*op).(*ssa.Function); ok && (common == nil || op != &common.Value) {
						escaped[f] = true
					}
				}
			}
		}
	}
	eligible := func(t types.Type, idx int) (*types.Struct, bool) {
		st := asStruct(t)
		if st == nil {
			return nil, false
		}
		f := st.Field(idx)
		b, ok := f.Type().Underlying().(*types.Basic)
		return st, ok && b.Info()&types.IsInteger != 0 && !f.Exported() && f.Pkg() != nil && (f.Pkg() == p.MPD.Pkg || f.Pkg() == p.XML.Pkg)
	}
	var resolve func(k fieldKey, v ssa.Value, seen map[ssa.Value]bool) bool
	resolve = func(k fieldKey, v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		r := p.fieldRanges[k]
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				return true
			}
			n, ok := constant.Int64Val(constant.ToInt(v.Value))
			if !ok {
				return false
			}
			r.lo, r.hi = min(r.lo, n), max(r.hi, n)
			return true
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !resolve(k, e, seen) {
					return false
				}
			}
			return true
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
				st := asStruct(fa.X.Type().Underlying().(*types.Pointer).Elem())
				return fieldKey{st, fa.Field} == k
			}
		case *ssa.Parameter:
			fn := v.Parent()
			if fn.Object() == nil || fn.Object().Exported() || escaped[fn] || len(calls[fn]) == 0 {
				return false
			}
			for i, q := range fn.Params {
				if q != v {
					continue
				}
				for _, c := range calls[fn] {
					if c.IsInvoke() || i >= len(c.Args) || !resolve(k, c.Args[i], seen) {
						return false
					}
				}
			}
			return true
		}
		return false
	}
	for _, fn := range p.Funcs {
		if isSpecFunc(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, ok := eligible(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
				if !ok {
					continue
				}
				k := fieldKey{st, fa.Field}
				r := p.fieldRanges[k]
				if r == nil {
					r = &valueRange{}
					p.fieldRanges[k] = r
				}
				for _, u := range *fa.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						continue
					case *ssa.Store:
						if u.Addr == ssa.Value(fa) && u.Val != ssa.Value(fa) && resolve(k, u.Val, map[ssa.Value]bool{}) {
							continue
						}
					}
					r.open = true
				}
			}
		}
	}
}

// rangeOf bounds a value loaded from such a field.
func (e *Engine) rangeOf(t *Term) (lo, hi int64, ok bool) {
	if t.op == "conv" && t.typ != nil && isIntType(t.typ) {
		if lo, hi, ok := floatRange(t.args[0], 0); ok && lo >= 0 && hi < 1<<31 {
			return int64(lo), int64(hi), true
		}
		return 0, 0, false
	}
	if t.op != "load" || len(t.args) == 0 || t.args[0].op != "faddr" || t.args[0].ctyp == nil {
		return 0, 0, false
	}
	a := t.args[0]
	st := asStruct(a.ctyp)
	if st == nil {
		return 0, 0, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if strings.HasSuffix(a.aux, "#"+strconv.Itoa(i)) {
			return e.P.fieldRange(st, i)
		}
	}
	return 0, 0, false
}

// floatRange bounds a rounded or scaled remainder; the operations are monotone.
func floatRange(t *Term, d int) (lo, hi float64, ok bool) {
	switch {
	case d > 6:
	case t.op == "conv" && t.typ != nil && isFloatType(t.typ):
		if lo, hi, ok := remainderRange(t.args[0]); ok {
			return float64(lo), float64(hi), true
		}
	case t.op == "call" && len(t.args) == 1:
		f := map[string]func(float64) float64{"math.Round#0": math.Round, "math.Floor#0": math.Floor, "math.Ceil#0": math.Ceil, "math.Trunc#0": math.Trunc}[t.aux]
		if f == nil {
			return
		}
		if lo, hi, ok = floatRange(t.args[0], d+1); ok {
			return f(lo), f(hi), true
		}
	case t.op == "op" && len(t.args) == 2 && (strings.HasPrefix(t.aux, "* float64") || strings.HasPrefix(t.aux, "/ float64")):
		x, y := t.args[0], t.args[1]
		if t.aux[0] == '*' && x.op == "const" {
			x, y = y, x
		}
		if y.op != "const" || y.val == nil {
			return
		}
		k, _ := constant.Float64Val(constant.ToFloat(y.val))
		if k <= 0 {
			return
		}
		if lo, hi, ok = floatRange(x, d+1); ok {
			if t.aux[0] == '*' {
				return lo * k, hi * k, true
			}
			return lo / k, hi / k, true
		}
	}
	return
}

// foreign: an interface of another module that no type of this one
// implements. What is behind it cannot name the module's unexported fields; it
// is taken not to call back into the object that called it, nor to change the
// values that are being read or written, either.
func (p *Program) foreign(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg() == p.XML.Pkg || n.Obj().Pkg() == p.MPD.Pkg {
		return false
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return false
	}
	for _, pkg := range []*types.Package{p.XML.Pkg, p.MPD.Pkg} {
		for _, name := range pkg.Scope().Names() {
			tn, ok := pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), it) || types.Implements(types.NewPointer(tn.Type()), it) {
				return false
			}
		}
	}
	return true
}

// ownField: the address of a field of one of the module's types.
func (p *Program) ownField(a *Term) bool {
	if a.op != "faddr" || a.ctyp == nil {
		return false
	}
	st, ok := a.ctyp.Underlying().(*types.Struct)
	i := strings.LastIndexByte(a.aux, '#')
	if !ok || i < 0 {
		return false
	}
	n, err := strconv.Atoi(a.aux[i+1:])
	if err != nil || n >= st.NumFields() {
		return false
	}
	f := st.Field(n)
	return (f.Pkg() == p.XML.Pkg || f.Pkg() == p.MPD.Pkg)
}

// mapHoldsAddresses: a map to pointers to an unexported type of the module,
// in which the module only ever stores addresses of variables.
func (p *Program) mapHoldsAddresses(mt *types.Map) bool {
	pt, ok := mt.Elem().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(pt.Elem())
	if n == nil || n.Obj().Exported() || n.Obj().Pkg() != p.XML.Pkg && n.Obj().Pkg() != p.MPD.Pkg {
		return false
	}
	k := typeStr(mt)
	if v, ok := p.mapAddrs[k]; ok {
		return v
	}
	v := true
	for _, fn := range p.Funcs {
		if isSpecFunc(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && types.Identical(mu.Map.Type().Underlying(), mt) {
					switch mu.Value.(type) {
					case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
					default:
						v = false
					}
				}
			}
		}
	}
	if p.mapAddrs == nil {
		p.mapAddrs = map[string]bool{}
	}
	p.mapAddrs[k] = v
	return v
}

// callback: a function value the module is given by its caller, held in an
// exported field of one of the module's types that the module itself sets to
// no function of its own.
func (p *Program) callback(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	key, ok := fieldOfAddr(u.X)
	if !ok {
		return false
	}
	st, ok := key.typ.Underlying().(*types.Struct)
	if !ok || !st.Field(key.idx).Exported() {
		return false
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if k, ok := fieldOfAddr(s.Addr); ok && k.idx == key.idx && types.Identical(k.typ, key.typ) {
					if _, param := s.Val.(*ssa.Parameter); !param {
						return false
					}
				}
			}
		}
	}
	return true
}

type ownerField struct {
	typ types.Type
	idx int
}

func fieldOfAddr(v ssa.Value) (ownerField, bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ownerField{}, false
	}
	return ownerField{types.Unalias(fa.X.Type().Underlying().(*types.Pointer).Elem()), fa.Field}, true
}

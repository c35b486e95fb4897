package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// clears: a method that, when it reports success in result res, leaves error
// field i of its receiver nil. What a caller sees there then is known.
type clears struct {
	field int
	res   int
}

// clearsOf decides from the source of a method of the codec which error
// fields of its receiver are nil whenever its last result is true.
func (p *Program) clearsOf(fn *ssa.Function) []clears {
	if c, ok := p.clearing[fn]; ok {
		return c
	}
	if p.clearing == nil {
		p.clearing = map[*ssa.Function][]clears{}
	}
	p.clearing[fn] = nil // while it is being decided
	sig := fn.Signature
	n := sig.Results().Len()
	if fn.Pkg == nil || fn.Pkg != p.XML || len(fn.Blocks) == 0 || sig.Recv() == nil || n == 0 || !isBoolType(sig.Results().At(n-1).Type()) {
		return nil
	}
	pt, ok := sig.Recv().Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var fields []int
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), types.Universe.Lookup("error").Type()) {
			fields = append(fields, i)
		}
	}
	if len(fields) == 0 {
		return nil
	}
	var out []clears
	func() {
		defer func() {
			if recover() != nil {
				out = nil // not decided
			}
		}()
		ev := newEngine(p).newEval()
		o := ev.Run(fn, nonNilParams(nil))
		ok := ev.B.And(o.ret, ev.truth(o.results[n-1]))
		for _, i := range fields {
			v := ev.load(ok, ev.lift(ok, func(ts []*Term) *Term { return ev.faddr(ts[0], pt.Elem(), i) }, o.params[0]), st.Field(i).Type())
			left := ok
			nil_ := true
			for _, x := range v.parts {
				g := ev.B.And(ok, x.g)
				left = ev.B.And(left, ev.B.Not(x.g))
				if ev.feasible(ev.B.And(g, ev.B.Not(ev.eqTerms(x.t, ev.Nil())))) {
					nil_ = false
				}
			}
			if nil_ && left == bFalse && ok != bFalse {
				out = append(out, clears{i, n - 1})
			}
		}
	}()
	p.clearing[fn] = out
	return out
}

// clearedBy: when, after the call, what is stored at a is nil.
func (ev *Eval) clearedBy(en *entry, a *Term) BDD {
	if en.fn == nil || a.op != "faddr" || len(en.args) == 0 {
		return bFalse
	}
	for _, c := range ev.P.clearsOf(en.fn) {
		res := en.res
		if n := en.fn.Signature.Results().Len(); n > 1 {
			if len(res.agg) != n {
				continue
			}
			res = res.agg[c.res]
		}
		if len(res.parts) == 0 {
			continue
		}
		st := en.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		for _, x := range en.args[0].parts {
			if ev.faddr(x.t, st, c.field) == a {
				return ev.B.And(x.g, ev.truth(res))
			}
		}
	}
	return bFalse
}

package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Counters that wrap around: the comparison with the reference takes a counter
// never to reach the end of its type, which holds for 64 bits and what memory
// and time allow, not for less.

// narrow: an integer type that a long document can exhaust.
func narrow(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32:
		return true
	}
	return false
}

func posConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() > 0
}

// sameCell: two addresses of one variable or of one field of one object.
func sameCell(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && sameCell(x.X, y.X)
}

// boundedAbove: an ordered comparison with a constant, or with another value of
// the same type, limits the counter before it is increased.
func boundedAbove(is func(ssa.Value) bool, fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch c.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for k, v := range []ssa.Value{c.X, c.Y} {
				o := []ssa.Value{c.Y, c.X}[k]
				if !is(v) {
					continue
				}
				if oc, ok := o.(*ssa.Const); ok {
					// k > 0, k >= 0 and k != 0 bound nothing from above
					if oc.Value == nil || oc.Int64() <= 0 || c.Op == token.NEQ || c.Op == token.EQL {
						continue
					}
				} else if less := c.Op == token.LSS || c.Op == token.LEQ; c.Op != token.NEQ && c.Op != token.EQL && less != (k == 0) {
					continue // it is the other that is the larger
				}
				return true
			}
		}
	}
	return false
}

// wrapping lists the counters of fn, and of the functions of its package it
// calls that have no reference of their own, that are narrower than 64 bits and
// increased without a bound.
func (p *Program) wrapping(fn *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch in := i.(type) {
				case ssa.CallInstruction:
					if c := in.Common().StaticCallee(); c != nil && c.Pkg == f.Pkg && p.specFor(c) == nil {
						visit(c)
					}
				case *ssa.BinOp:
					if in.Op != token.ADD || !narrow(in.Type()) || !posConst(in.Y) {
						continue
					}
					switch x := in.X.(type) {
					case *ssa.Phi:
						back := false
						for _, e := range x.Edges {
							back = back || feeds(in, e, 0)
						}
						is := func(v ssa.Value) bool { return v == x || v == in }
						if back && !boundedAbove(is, f) {
							out = append(out, in)
						}
					case *ssa.UnOp:
						if x.Op != token.MUL {
							continue
						}
						stored := false
						for _, ref := range *in.Referrers() {
							if s, ok := ref.(*ssa.Store); ok && sameCell(s.Addr, x.X) {
								stored = true
							}
						}
						is := func(v ssa.Value) bool {
							u, ok := v.(*ssa.UnOp)
							return v == in || ok && u.Op == token.MUL && sameCell(u.X, x.X)
						}
						if stored && !boundedAbove(is, f) {
							out = append(out, in)
						}
					}
				}
			}
		}
	}
	visit(fn)
	return out
}

// feeds: v is e, or reaches it through joins.
func feeds(v, e ssa.Value, d int) bool {
	if v == e {
		return true
	}
	if ph, ok := e.(*ssa.Phi); ok && d < 4 {
		for _, x := range ph.Edges {
			if feeds(v, x, d+1) {
				return true
			}
		}
	}
	return false
}

// specFor: the reference of a function, if it has one.
func (p *Program) specFor(fn *ssa.Function) *ssa.Function {
	n := fn.Name()
	if rv := fn.Signature.Recv(); rv != nil {
		t := rv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name() + "_" + n
		}
	}
	if fn.Pkg == nil {
		return nil
	}
	return p.specOf(fn.Pkg, n)
}

// counterWidth reports the counters below sub that can wrap around.
func (r *Report) counterWidth(rule, name string, sub *ssa.Function) {
	for _, i := range r.P.wrapping(sub) {
		v := i.(*ssa.BinOp)
		r.Ob(rule, name+": counter", r.P.Pos(i.Pos()), false, "a counter of type %s is increased without a bound: it wraps around and the function then behaves as at another count", v.Type())
	}
}

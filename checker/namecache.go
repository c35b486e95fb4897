package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// nameCache: what is put into the decoder's cache of names has been checked to
// be a name. The key of every entry is followed back, through the parameters
// to the call sites and through results into the functions that made them; on
// each way some value it passed through is the argument of such a check.
func (r *Report) nameCache() {
	const rule = "cached-name"
	r.Rule(rule, "every way a key takes into the decoder's name cache passes a check that it is a name")
	p := r.P
	cache := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		pt, ok := fa.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n := namedOf(pt.Elem())
		if n == nil || n.Obj().Name() != "Decoder" || n.Obj().Pkg() != p.XML.Pkg {
			return false
		}
		return asStruct(pt.Elem()).Field(fa.Field).Name() == "nameIntern"
	}
	checks := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if fn.Pkg == p.XML && fn.Parent() == nil && !isSpecFunc(fn) && (fn.Name() == "isName" || fn.Name() == "isNameString") {
			checks[fn] = true
		}
	}
	if len(checks) == 0 {
		r.Undecided(rule, "isName", "", "no name check found")
		return
	}
	t := &keyTrace{p: p, checks: checks}
	found := false
	for _, fn := range p.Funcs {
		if fn.Pkg != p.XML || isSpecFunc(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !cache(mu.Map) {
					continue
				}
				found = true
				name := "entry made in " + shortFn(fn)
				t.bad, t.gaveUp, t.seen = "", "", map[ssa.Value]bool{}
				t.follow(mu.Key, 0)
				switch {
				case t.gaveUp != "":
					r.Undecided(rule, name, p.Pos(mu.Pos()), "%s", t.gaveUp)
				case t.bad != "":
					r.Ob(rule, name, p.Pos(mu.Pos()), false, "the key may be text that was never checked to be a name: %s", t.bad)
				default:
					r.Ob(rule, name, p.Pos(mu.Pos()), true, "every key passed a name check")
				}
			}
		}
	}
	if !found {
		r.Undecided(rule, "nameIntern", "", "no entry of a name cache is made directly")
	}
}

type keyTrace struct {
	p           *Program
	checks      map[*ssa.Function]bool
	seen        map[ssa.Value]bool
	bad, gaveUp string
}

// sameText: the two values stand for the same text, as far as one can tell
// from the way they are made.
func sameText(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Convert:
		return sameText(x.X, b, d+1)
	case *ssa.ChangeType:
		return sameText(x.X, b, d+1)
	}
	switch b.(type) {
	case *ssa.Convert, *ssa.ChangeType:
		return sameText(b, a, d+1)
	}
	switch x := a.(type) {
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || x.Call.StaticCallee() == nil || x.Call.StaticCallee() != y.Call.StaticCallee() {
			return false
		}
		for i := range x.Call.Args {
			if !sameText(x.Call.Args[i], y.Call.Args[i], d+1) {
				return false
			}
		}
		return true
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameText(x.X, y.X, d+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameText(x.X, y.X, d+1)
	}
	return false
}

// checked: the function (or one it gets its verdict from) checks this value.
func (t *keyTrace) checked(v ssa.Value, fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := c.Call.StaticCallee()
			if f == nil {
				continue
			}
			for _, a := range c.Call.Args {
				if sameText(a, v, 0) && (t.checks[f] || f.Pkg == t.p.XML && isTextType(a.Type()) && reachesAny(t.p, f, t.checks)) {
					return true
				}
			}
		}
	}
	return false
}

func isTextType(t types.Type) bool { return isStringType(t) || isByteSlice(t) }

func (t *keyTrace) follow(v ssa.Value, d int) {
	if t.seen[v] || t.bad != "" || t.gaveUp != "" {
		return
	}
	t.seen[v] = true
	if d > 40 {
		t.gaveUp = "the key takes too long a way"
		return
	}
	fn := v.Parent()
	if fn != nil && t.checked(v, fn) {
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		return
	case *ssa.Convert:
		t.follow(x.X, d+1)
	case *ssa.ChangeType:
		t.follow(x.X, d+1)
	case *ssa.Slice:
		t.follow(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.follow(e, d+1)
		}
	case *ssa.Parameter:
		i := -1
		for j, q := range fn.Params {
			if q == x {
				i = j
			}
		}
		n := 0
		for _, f := range t.p.Funcs {
			if isSpecFunc(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, is := in.(ssa.CallInstruction); is && c.Common().StaticCallee() == fn && i < len(c.Common().Args) {
						n++
						t.follow(c.Common().Args[i], d+1)
					} else {
						for _, op := range in.Operands(nil) {
							if *op == ssa.Value(fn) {
								if c, is := in.(ssa.CallInstruction); !is || c.Common().Value != *op {
									t.gaveUp = "the caching function is used as a value"
								}
							}
						}
					}
				}
			}
		}
	case *ssa.Extract:
		if c, is := x.Tuple.(*ssa.Call); is {
			t.result(c, x.Index, d)
			return
		}
		t.bad = describeLeaf(t.p, v)
	case *ssa.Call:
		t.result(x, 0, d)
	case *ssa.UnOp, *ssa.Lookup, *ssa.BinOp:
		t.gaveUp = "the key is put together or kept in memory"
	default:
		t.gaveUp = "the key comes from " + describeLeaf(t.p, v)
	}
}

// result goes on with what a call returns.
func (t *keyTrace) result(c *ssa.Call, i, d int) {
	f := c.Call.StaticCallee()
	if f == nil {
		t.gaveUp = "the key comes from " + describeLeaf(t.p, c)
		return
	}
	if !t.p.InModule(f) || len(f.Blocks) == 0 {
		if f.Signature.Recv() != nil { // the decoder's buffer
			t.bad = describeLeaf(t.p, c)
		} else {
			t.gaveUp = "the key comes from " + describeLeaf(t.p, c)
		}
		return
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			t.follow(ret.Results[i], d+1)
		}
	}
}

func describeLeaf(p *Program, v ssa.Value) string {
	if in, ok := v.(ssa.Instruction); ok {
		if c, ok := in.(*ssa.Call); ok {
			return callName(&c.Call) + " in " + shortFn(v.Parent()) + " at " + p.Pos(c.Pos())
		}
		return describe(v) + " in " + shortFn(v.Parent())
	}
	return describe(v)
}

// ownMemory: no value is made that shares the memory of another of a
// different, immutable type.
func (r *Report) ownMemory() {
	const rule = "own-memory"
	r.Rule(rule, "no string is made over memory that stays writable (package unsafe) in the codec")
	n := 0
	for _, fn := range r.P.Funcs {
		if fn.Pkg != r.P.XML || isSpecFunc(fn) {
			continue
		}
		n++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "String" || bi.Name() == "Slice" && len(x.Call.Args) == 2) {
						if _, fresh := rootOfAddr(x.Call.Args[0]).(*ssa.Alloc); !fresh {
							r.Ob(rule, shortFn(fn), r.P.Pos(x.Pos()), false, "unsafe.%s over memory of another value", bi.Name())
						}
					}
				case *ssa.Convert:
					if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						if pt, ok := x.Type().Underlying().(*types.Pointer); ok && holdsText(pt.Elem()) {
							r.Ob(rule, shortFn(fn), r.P.Pos(x.Pos()), false, "memory is reinterpreted as %s", typeStr(pt.Elem()))
						}
					}
				}
			}
		}
	}
	r.Ob(rule, "package xml", "", true, "%d functions make no such value", n)
}

func holdsText(t types.Type) bool {
	_, sl := t.Underlying().(*types.Slice)
	return isStringType(t) || sl
}

func init() {
	codecRules["C23"] = func(r *Report) { r.nameCache(); r.ownMemory() }
}

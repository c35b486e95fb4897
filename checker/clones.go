package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const deepcopyPath = "github.com/barkimedes/go-deepcopy"

// origin strips field selections, indexing and loads: the value it started from.
func origin(t *Term) *Term {
	for {
		switch t.op {
		case "faddr", "iaddr", "slice", "load", "tassert", "iface":
			if len(t.args) == 0 {
				return t
			}
			t = t.args[0]
		default:
			return t
		}
	}
}

// refersTo: t contains a part that starts from root.
func refersTo(t, root *Term, d int) bool {
	if t == root {
		return true
	}
	if d > 40 {
		return true
	}
	for _, a := range t.args {
		if refersTo(a, root, d+1) {
			return true
		}
	}
	return false
}

func isReference(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (r *Report) checkClone(rule string, fn *ssa.Function, name string) {
	if fn == nil {
		r.Ob(rule, name, "", false, "function not found")
		return
	}
	r.guarded(rule, name, r.P.Pos(fn.Pos()), func() {
		ev := newEngine(r.P).newEval()
		ev.assumeElems = true
		ev.modes = r.P.codecOpaque
		o := ev.Run(fn, nonNilParams(nil))
		orig := o.params[0].parts[0].t
		copies := map[*Term]*entry{}
		for _, en := range o.log {
			if en.kind == eEvent && en.fn != nil && pkgPathOf(en.fn) == deepcopyPath {
				res := en.res
				if res.isAgg() {
					res = res.agg[0]
				}
				for _, p := range res.parts {
					copies[p.t] = en
				}
			}
		}
		fail := func(pos, f string, a ...any) { r.Ob(rule, name, pos, false, f, a...) }
		bad := false
		for _, p := range o.results[0].parts {
			if !ev.feasible(ev.B.And(o.ret, p.g)) || p.t == ev.Nil() {
				continue
			}
			en := copies[origin(p.t)]
			if en == nil || p.t.op != "tassert" {
				fail(r.P.Pos(fn.Pos()), "returns %s, which is not the result of a deep copy of the argument", p.t)
				bad = true
				continue
			}
			src := en.args[0]
			for _, q := range src.parts {
				if ev.feasible(ev.B.And(p.g, q.g)) && !(q.t.op == "iface" && q.t.args[0] == orig) {
					fail(r.P.Pos(en.pos), "the deep copy is taken of %s, not of the argument", q.t)
					bad = true
				}
			}
		}
		for _, en := range o.log {
			switch en.kind {
			case eStore, eMapStore:
				if origin(en.addr) == orig {
					fail(r.P.Pos(en.pos), "modifies the original: %s", en.addr)
					bad = true
				}
				var walk func(v Value)
				walk = func(v Value) {
					for _, p := range v.parts {
						if isReference(p.t.typ) && p.t.op != "alloc" && refersTo(p.t, orig, 0) {
							fail(r.P.Pos(en.pos), "attaches memory of the original to the copy: %s", p.t)
							bad = true
						}
					}
					for _, a := range v.agg {
						walk(a)
					}
				}
				walk(en.val)
			case eEvent:
				if en.fn != nil && pkgPathOf(en.fn) == deepcopyPath || !en.havoc {
					continue
				}
				for _, a := range en.args {
					for _, p := range a.parts {
						if isReference(p.t.typ) && refersTo(p.t, orig, 0) {
							fail(r.P.Pos(en.pos), "hands the original to %s", en.name)
							bad = true
						}
					}
				}
			}
		}
		if !bad {
			r.Ob(rule, name, r.P.Pos(fn.Pos()), true, "returns the deep copy of its argument; no store touches or shares the original")
		}
		r.Units["ssa_instructions"] += ev.steps
	})
}

// copyable walks every type the deep copy meets and reports those it cannot
// copy or silently leaves out.
func (r *Report) copyable(rule string, roots ...string) {
	seen := map[string]bool{}
	var walk func(t types.Type, path string)
	walk = func(t types.Type, path string) {
		t = types.Unalias(t)
		key := types.TypeString(t, nil)
		if n, ok := t.(*types.Named); ok {
			if seen[key] {
				return
			}
			seen[key] = true
			path = n.Obj().Name()
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if sz := r.P.Sizes.Sizeof(u.Elem()); sz == 0 {
				r.Ob(rule, path, "", false, "pointer to a zero-size type: the copy library identifies pointers by address")
			}
			walk(u.Elem(), path)
		case *types.Slice:
			walk(u.Elem(), path)
		case *types.Array:
			walk(u.Elem(), path)
		case *types.Map:
			walk(u.Key(), path)
			walk(u.Elem(), path)
		case *types.Chan, *types.Signature, *types.Interface:
			r.Ob(rule, path, "", false, "type %s cannot be deep-copied in every state", key)
		case *types.Basic:
			if u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr {
				r.Ob(rule, path, "", false, "type %s cannot be deep-copied", key)
			}
		case *types.Struct:
			var left []string
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if !f.Exported() {
					if r.isParentLink(t, i) {
						continue
					}
					left = append(left, f.Name())
					continue
				}
				walk(f.Type(), path+"."+f.Name())
			}
			if n, ok := t.(*types.Named); ok {
				where := r.P.Pos(n.Obj().Pos())
				if len(left) > 0 {
					r.Ob(rule, n.Obj().Name(), where, false, "unexported fields are not copied: %s", strings.Join(left, ", "))
				} else {
					r.Ob(rule, n.Obj().Name(), where, true, "%d fields, all copied (parent link excepted)", u.NumFields())
				}
			} else if len(left) > 0 {
				r.Ob(rule, path, "", false, "unexported fields are not copied: %s", strings.Join(left, ", "))
			}
		}
	}
	sort.Strings(roots)
	for _, n := range roots {
		t := r.P.Named(r.P.MPD, n)
		if t == nil {
			r.Ob(rule, n, "", false, "type not found")
			continue
		}
		walk(t, n)
	}
}

// isParentLink: field i is what the type's Parent method reports.
func (r *Report) isParentLink(t types.Type, i int) bool {
	n := namedOf(t)
	if n == nil || r.P.Method(r.P.MPD, n.Obj().Name(), "Parent") == nil {
		return false
	}
	_, fi, ok := r.P.parentField(n.Obj().Name())
	return ok && fi == i
}

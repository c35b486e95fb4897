package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modSet bounds what a function, and all it calls, may store into.
type modSet struct {
	all     bool            // anything
	foreign bool            // calls code of other modules: what is not a field of ours
	maps    bool            // some map
	fields  map[string]bool // struct#i
	elems   map[string]bool // elements of that type
	ptrs    map[string]bool // variables of that type, through a plain pointer
	types   map[string]bool // values of that type, by any of these
}

// modsOf computes the set over the static call graph. Where that is unknown
// (calls of function values, of interfaces the module implements, reflection)
// anything may be stored into.
func (p *Program) modsOf(fn *ssa.Function) *modSet {
	if m, ok := p.mods[fn]; ok {
		return m
	}
	m := &modSet{fields: map[string]bool{}, elems: map[string]bool{}, ptrs: map[string]bool{}, types: map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	call := func(cc *ssa.CallCommon) {
		if cc.IsInvoke() {
			switch {
			case pureInvoke(cc.Method.Name(), cc.Value.Type()):
			case p.foreign(cc.Value.Type()):
				m.foreign = true
			default:
				m.all = true
			}
			return
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append", "copy":
				if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
					m.elems[typeStr(st.Elem())] = true
					m.types[typeStr(st.Elem())] = true
				}
			case "delete", "clear":
				m.maps = true
				if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
					m.elems[typeStr(st.Elem())] = true
					m.types[typeStr(st.Elem())] = true
				}
			}
			return
		}
		f := cc.StaticCallee()
		switch {
		case f == nil && p.callback(cc.Value):
			m.foreign = true
		case f == nil:
			m.all = true
		case len(f.Blocks) > 0 && p.InModule(f):
			visit(f)
		case libPure(f):
		default:
			switch k := scopeOf(f); k {
			case "", "reflect.Value":
				if k == "" || strings.HasPrefix(f.Name(), "Set") {
					m.all = true
				}
			default:
				if strings.HasPrefix(f.Name(), "Read") {
					m.elems["byte"], m.elems["uint8"] = true, true
				}
			}
		}
	}
	visit = func(f *ssa.Function) {
		if seen[f] || m.all {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					m.store(in.Addr)
				case *ssa.MapUpdate:
					m.maps = true
				case ssa.CallInstruction:
					call(in.Common())
				case *ssa.ChangeType:
					if _, ok := in.Type().Underlying().(*types.Pointer); ok {
						m.all = true // the same memory under another type
					}
				case *ssa.Convert:
					if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						m.all = true
					}
				}
			}
		}
	}
	visit(fn)
	if p.mods == nil {
		p.mods = map[*ssa.Function]*modSet{}
	}
	p.mods[fn] = m
	return m
}

func (m *modSet) store(a ssa.Value) {
	t := a.Type().Underlying().(*types.Pointer).Elem()
	switch a := a.(type) {
	case *ssa.Alloc:
		return // its own
	case *ssa.FieldAddr:
		if _, own := rootOfAddr(a).(*ssa.Alloc); own {
			return
		}
		st := a.X.Type().Underlying().(*types.Pointer).Elem()
		m.fields[fmt.Sprintf("%s#%d", typeStr(types.Unalias(st)), a.Field)] = true
	case *ssa.IndexAddr:
		if _, own := rootOfAddr(a).(*ssa.Alloc); own {
			return
		}
		m.elems[typeStr(t)] = true
	default:
		m.ptrs[typeStr(t)] = true
	}
	m.types[typeStr(t)] = true
}

func rootOfAddr(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

// touches: the function may store at address a.
func (m *modSet) touches(p *Program, a *Term) bool {
	if m.all || m.foreign && !p.ownField(a) {
		return true
	}
	if a.op == "mapaddr" {
		return m.maps
	}
	if t := leafType(a); t == nil {
		return true
	} else if at, ok := t.Underlying().(*types.Array); ok && m.elems[typeStr(at.Elem())] {
		return true
	}
	for {
		t := leafType(a)
		switch a.op {
		case "faddr":
			if m.fields[a.aux] || t == nil || m.ptrs[typeStr(t)] {
				return true
			}
		case "iaddr":
			if m.elems[a.aux] || m.ptrs[a.aux] {
				return true
			}
		case "slice":
		default:
			if t == nil {
				// the elements of a slice
				return false
			}
			return m.types[typeStr(t)]
		}
		a = a.args[0]
	}
}

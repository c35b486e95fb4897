package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package-level tables: arrays, slices and maps filled by their initialisation
// and only read afterwards. What is looked up in them is spelled out, so a
// table says the same as the conditions it stands for.

type tnode struct {
	leaf ssa.Value
	kids map[int]*tnode
}

type tkey struct {
	key  *ssa.Const
	node *tnode
}

type table struct {
	typ     types.Type
	n       int    // length of an array or slice
	root    *tnode // its elements
	entries []tkey // of a map
}

const maxTable = 256

// table gives the content of a package-level table; nil where it is not known.
func (p *Program) table(g *ssa.Global) *table {
	if p.tables == nil {
		p.tables = map[*ssa.Global]*table{}
	}
	t, ok := p.tables[g]
	if !ok {
		t = p.readTable(g)
		p.tables[g] = t
	}
	return t
}

func (p *Program) readTable(g *ssa.Global) *table {
	if g.Pkg == nil || token.IsExported(g.Name()) || !p.initOnly(g) || p.globals().content[g] {
		return nil
	}
	vs := p.globals().initVals[g]
	switch u := deref(g.Type()).Underlying().(type) {
	case *types.Array:
		if u.Len() > maxTable {
			return nil
		}
		t := &table{typ: u, n: int(u.Len()), root: &tnode{}}
		if len(vs) == 1 && vs[0] != nil {
			n, ok := valueNode(vs[0])
			if !ok || n.leaf != nil && !zeroLeaf(n.leaf) {
				return nil
			}
			t.root.kids = n.kids
		} else if len(vs) != 0 {
			return nil
		}
		for fn := range p.initFuncs(g.Pkg) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
						continue // the value above
					}
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(g) && (len(vs) > 0 || fn.Name() != "init" || !fill(in, g, t.root)) {
							return nil
						}
					}
				}
			}
		}
		return t
	case *types.Slice:
		if len(vs) != 1 {
			return nil
		}
		s, ok := vs[0].(*ssa.Slice)
		if !ok || s.Low != nil || s.High != nil {
			return nil
		}
		a, ok := s.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		at, ok := deref(a.Type()).Underlying().(*types.Array)
		if !ok || at.Len() > maxTable || len(*s.Referrers()) != 1 {
			return nil
		}
		t := &table{typ: u, n: int(at.Len()), root: &tnode{}}
		for _, in := range *a.Referrers() {
			if in != ssa.Instruction(s) && !fill(in, a, t.root) {
				return nil
			}
		}
		return t
	case *types.Map:
		if len(vs) != 1 {
			return nil
		}
		m, ok := vs[0].(*ssa.MakeMap)
		if !ok {
			return nil
		}
		if _, ok := u.Key().Underlying().(*types.Basic); !ok {
			return nil
		}
		t := &table{typ: u}
		for _, in := range *m.Referrers() {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				k, ok := in.Key.(*ssa.Const)
				if !ok || in.Map != ssa.Value(m) {
					return nil
				}
				n, ok := valueNode(in.Value)
				if !ok {
					return nil
				}
				t.entries = append(t.entries, tkey{k, n})
			case *ssa.Store, *ssa.DebugRef:
			default:
				return nil
			}
		}
		if len(t.entries) > maxTable {
			return nil
		}
		return t
	}
	return nil
}

// initFuncs: what runs when the package is initialised.
func (p *Program) initFuncs(pk *ssa.Package) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg == pk && f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			out[f] = true
		}
	}
	if f := pk.Func("init"); f != nil {
		out[f] = true
	}
	return out
}

// valueNode: a value that is a leaf, or a composite put together in a variable.
func valueNode(v ssa.Value) (*tnode, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a, ok := u.X.(*ssa.Alloc); ok {
			n := &tnode{}
			for _, in := range *a.Referrers() {
				if in != ssa.Instruction(u) && !fill(in, a, n) {
					return nil, false
				}
			}
			return n, true
		}
	}
	if !leafOK(v) {
		return nil, false
	}
	return &tnode{leaf: v}, true
}

// leafOK: a constant or the value of another package-level variable.
func leafOK(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		_, ok := v.X.(*ssa.Global)
		return ok && v.Op == token.MUL
	case *ssa.Convert:
		_, ok := v.X.(*ssa.Const)
		return ok && isByteSlice(v.Type())
	}
	return false
}

// fill takes in one use of the address of a composite while it is filled.
func fill(in ssa.Instruction, addr ssa.Value, n *tnode) bool {
	sub := func(i int, v ssa.Value) bool {
		if n.kids == nil {
			n.kids = map[int]*tnode{}
		}
		k := n.kids[i]
		if k == nil {
			k = &tnode{}
			n.kids[i] = k
		}
		for _, r := range *v.Referrers() {
			if !fill(r, v, k) {
				return false
			}
		}
		return true
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.IndexAddr:
		c, ok := in.Index.(*ssa.Const)
		return ok && in.X == addr && sub(int(c.Int64()), in)
	case *ssa.FieldAddr:
		return sub(in.Field, in)
	case *ssa.Store:
		if in.Addr != addr || n.leaf != nil {
			return false
		}
		v, ok := valueNode(in.Val)
		if !ok {
			return false
		}
		if v.leaf == nil && v.kids != nil {
			n.kids = v.kids
			return true
		}
		n.leaf = v.leaf
		return true
	}
	return false
}

// nodeValue is the value a table holds at n.
func (ev *Eval) nodeValue(n *tnode, t types.Type) (Value, bool) {
	if n == nil || n.leaf == nil && n.kids == nil {
		return ev.zero(t), true
	}
	switch v := n.leaf.(type) {
	case nil:
	case *ssa.Const:
		return ev.constant(v), true
	case *ssa.Convert:
		return scalar(ev.mk("bytes", "", t, ev.constant(v.X.(*ssa.Const)).parts[0].t)), true
	case *ssa.UnOp:
		g := v.X.(*ssa.Global)
		return ev.globalConst(ev.mk("global", globalName(g), g.Type()), t)
	default:
		return Value{}, false
	}
	if st := asStruct(t); st != nil {
		v := Value{typ: t, agg: []Value{}}
		for i := 0; i < st.NumFields(); i++ {
			x, ok := ev.nodeValue(n.kids[i], st.Field(i).Type())
			if !ok {
				return Value{}, false
			}
			v.agg = append(v.agg, x)
		}
		return v, true
	}
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 16 {
		v := Value{typ: t, agg: []Value{}}
		for i := 0; i < int(at.Len()); i++ {
			x, ok := ev.nodeValue(n.kids[i], at.Elem())
			if !ok {
				return Value{}, false
			}
			v.agg = append(v.agg, x)
		}
		return v, true
	}
	return Value{}, false
}

// tableOf: the table a term is the content or the address of.
func (ev *Eval) tableOf(t *Term) *table {
	if t.op != "gconst" && t.op != "global" {
		return nil
	}
	g := ev.P.global(t.aux)
	if g == nil {
		return nil
	}
	tb := ev.P.table(g)
	if tb == nil {
		return nil
	}
	if _, arr := tb.typ.(*types.Array); arr != (t.op == "global") {
		return nil
	}
	return tb
}

// loadTable reads address a of a table, when g holds.
func (ev *Eval) loadTable(g BDD, a *Term, t types.Type) (Value, bool) {
	tb := ev.tableOf(rootOf(a))
	if tb == nil || tb.root == nil {
		return Value{}, false
	}
	var path []*Term
	for x := a; x != rootOf(a); x = x.args[0] {
		if x.op != "faddr" && x.op != "iaddr" {
			return Value{}, false
		}
		path = append(path, x)
	}
	if len(path) == 0 {
		return Value{}, false
	}
	var read func(c BDD, n *tnode, i int, length int) ([]Value, bool)
	read = func(c BDD, n *tnode, i int, length int) ([]Value, bool) {
		if i < 0 {
			v, ok := ev.nodeValue(n, t)
			return []Value{ev.restrict(v, c)}, ok && !v.isAgg()
		}
		x := path[i]
		kid := func(k int) *tnode {
			if n == nil {
				return nil
			}
			return n.kids[k]
		}
		if x.op == "faddr" {
			k, err := strconv.Atoi(x.aux[strings.LastIndexByte(x.aux, '#')+1:])
			if err != nil {
				return nil, false
			}
			return read(c, kid(k), i-1, arrayLen(x))
		}
		if k, ok := x.args[1].constInt(); ok {
			if k < 0 || int(k) >= length {
				return nil, true
			}
			return read(c, kid(int(k)), i-1, arrayLen(x))
		}
		// stretches of elements that hold the same
		var out []Value
		for lo := 0; lo < length; {
			hi := lo + 1
			for hi < length && ev.sameNode(kid(lo), kid(hi)) {
				hi++
			}
			l := toLin(x.args[1])
			in := ev.eqTerms(x.args[1], ev.Int(int64(lo)))
			if hi > lo+1 {
				in = ev.B.And(ev.le0(linear{k: int64(lo)}.add(l, -1)), ev.le0(l.add(linear{k: int64(hi - 1)}, -1)))
			}
			if cc := ev.B.And(c, in); cc != bFalse {
				vs, ok := read(cc, kid(lo), i-1, arrayLen(x))
				if !ok {
					return nil, false
				}
				out = append(out, vs...)
			}
			lo = hi
		}
		return out, true
	}
	vs, ok := read(g, tb.root, len(path)-1, tb.n)
	if !ok || len(vs) == 0 {
		return Value{}, false
	}
	return ev.merge(vs...), true
}

// sameNode: two elements hold the same constants.
func (ev *Eval) sameNode(a, b *tnode) bool {
	if a == nil || b == nil || a.leaf == nil || b.leaf == nil {
		empty := func(n *tnode) bool { return n == nil || n.leaf == nil && n.kids == nil || zeroLeaf(n.leaf) }
		return empty(a) && empty(b)
	}
	x, ok1 := a.leaf.(*ssa.Const)
	y, ok2 := b.leaf.(*ssa.Const)
	if !ok1 || !ok2 {
		return false
	}
	if x.Value == nil || y.Value == nil {
		return x.Value == nil && y.Value == nil
	}
	return constant.Compare(x.Value, token.EQL, y.Value)
}

func zeroLeaf(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	if c.Value == nil {
		return true
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return !constant.BoolVal(c.Value)
	case constant.String:
		return constant.StringVal(c.Value) == ""
	case constant.Int:
		return constant.Sign(c.Value) == 0
	}
	return false
}

// arrayLen: the length of the array at an address.
func arrayLen(a *Term) int {
	if at, ok := deref(a.typ).Underlying().(*types.Array); ok {
		return int(at.Len())
	}
	return 0
}

// lookupTable looks a key up in a map.
func (ev *Eval) lookupTable(g BDD, tb *table, key *Term, mt *types.Map) (v Value, ok Value, known bool) {
	rem, okc := g, bFalse
	var alts []Value
	for _, en := range tb.entries {
		c := ev.B.And(rem, ev.eqTerms(key, ev.constant(en.key).parts[0].t))
		if c == bFalse {
			continue
		}
		x, fine := ev.nodeValue(en.node, mt.Elem())
		if !fine {
			return Value{}, Value{}, false
		}
		alts = append(alts, ev.restrict(x, c))
		okc = ev.B.Or(okc, c)
		rem = ev.B.And(rem, ev.B.Not(c))
	}
	if rem != bFalse {
		alts = append(alts, ev.restrict(ev.zero(mt.Elem()), rem))
	}
	return ev.merge(alts...), ev.boolean(g, okc), true
}

// unknownTable: a package-level table the subject reads and the reference does
// not, which is only written by initialisation but in a way that leaves its
// content open.
func (p *Program) unknownTable(sub, ref *ssa.Function) *ssa.Global {
	has := map[*ssa.Global]bool{}
	for _, g := range p.readsGlobals(ref) {
		has[g] = true
	}
	for _, g := range p.readsGlobals(sub) {
		if !has[g] && p.initOnly(g) && !p.globals().content[g] && !p.valueKnown(g) && tableType(deref(g.Type())) {
			return g
		}
	}
	return nil
}

func tableType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Array, *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		s := types.TypeString(u.Elem(), nil)
		return s == "regexp.Regexp" || s == "strings.Replacer" || s == "unicode.RangeTable"
	}
	return false
}

// readsGlobals lists the package-level variables a function uses, itself or
// through others of the module.
func (p *Program) readsGlobals(fn *ssa.Function) []*ssa.Global {
	var out []*ssa.Global
	seen := map[any]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Global:
						if !seen[x] {
							seen[x] = true
							out = append(out, x)
						}
					case *ssa.Function:
						if p.InModule(x) {
							visit(x)
						}
					}
				}
			}
		}
	}
	visit(fn)
	return out
}

// contentUses follows the uses of an address (or of a slice or map) and tells
// whether one may change what it refers to.
type contentUses struct {
	p    *Program
	init bool
	seen map[ssa.Value]bool
}

func (c *contentUses) addr(v ssa.Value) bool {
	if c.seen[v] {
		return false
	}
	c.seen[v] = true
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.UnOp:
		case *ssa.IndexAddr:
			if c.addr(in) {
				return true
			}
		case *ssa.FieldAddr:
			if c.addr(in) {
				return true
			}
		case *ssa.Slice:
			if c.content(in) {
				return true
			}
		case *ssa.Store:
			if !c.init || in.Val == v {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func (c *contentUses) content(v ssa.Value) bool {
	if c.seen[v] {
		return false
	}
	c.seen[v] = true
	switch v.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
	default:
		return false
	}
	if v.Referrers() == nil {
		return true
	}
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.Lookup, *ssa.Range, *ssa.BinOp, *ssa.Index:
		case *ssa.IndexAddr:
			if c.addr(in) {
				return true
			}
		case *ssa.Phi:
			if c.content(in) {
				return true
			}
		case *ssa.Slice:
			if c.content(in) {
				return true
			}
		case *ssa.MapUpdate:
			if in.Map == v && !c.init {
				return true
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "len" || b.Name() == "cap" || b.Name() == "append" && len(in.Call.Args) > 1 && in.Call.Args[1] == v && in.Call.Args[0] != v ||
					b.Name() == "copy" && in.Call.Args[1] == v && in.Call.Args[0] != v {
					continue
				}
				return true
			}
			f := in.Call.StaticCallee()
			if f == nil {
				return true
			}
			for i, a := range in.Call.Args {
				if a != v {
					continue
				}
				if len(f.Blocks) > 0 && c.p.InModule(f) {
					if c.content(f.Params[i]) {
						return true
					}
				} else if !readsOnly(f) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// readsOnly: a library function that does not write to its arguments.
func readsOnly(f *ssa.Function) bool {
	n := f.String()
	if f.Origin() != nil {
		n = f.Origin().String()
	}
	for _, p := range []string{"slices.Contains", "slices.Index", "slices.BinarySearch", "slices.Equal", "strings.", "bytes.", "sort.Search", "(*bytes.Buffer).Write", "(*bufio.Writer).Write"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

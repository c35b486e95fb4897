package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Rules about the codec that need no reference.

//go:embed tables.tsv
var tablesTSV string

// varInit finds the initialiser of a package-level variable.
func (p *Program) varInit(path, name string) (ast.Expr, *packages.Package) {
	for _, pk := range p.Pkgs {
		if pk.PkgPath != path {
			continue
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						if n.Name == name && i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
							return vs.Values[i], pk
						}
					}
				}
			}
		}
	}
	return nil, nil
}

// canonical is the value an initialiser denotes, independent of its layout.
func (p *Program) canonical(pk *packages.Package, e ast.Expr) string {
	if tv, ok := pk.TypesInfo.Types[e]; ok && tv.Value != nil {
		return constText(tv.Value)
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return p.canonical(pk, e.X)
	case *ast.UnaryExpr:
		return e.Op.String() + p.canonical(pk, e.X)
	case *ast.Ident:
		if v, ok := pk.TypesInfo.Uses[e].(*types.Var); ok && v.Parent() == pk.Types.Scope() {
			if init, ipk := p.varInit(pk.PkgPath, e.Name); init != nil {
				return p.canonical(ipk, init)
			}
		}
		return e.Name
	case *ast.CompositeLit:
		t := pk.TypesInfo.TypeOf(e)
		var parts []string
		st, _ := t.Underlying().(*types.Struct)
		for i, el := range e.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			switch {
			case st != nil && ok:
				parts = append(parts, kv.Key.(*ast.Ident).Name+"="+p.canonical(pk, kv.Value))
			case st != nil:
				parts = append(parts, st.Field(i).Name()+"="+p.canonical(pk, el))
			case ok:
				parts = append(parts, p.canonical(pk, kv.Key)+"="+p.canonical(pk, kv.Value))
			default:
				parts = append(parts, p.canonical(pk, el))
			}
		}
		if _, ok := t.Underlying().(*types.Slice); !ok {
			sort.Strings(parts)
		}
		return "{" + strings.Join(parts, " ") + "}"
	case *ast.CallExpr:
		// reflect.TypeFor[T]() and reflect.TypeOf((*T)(nil)).Elem()
		if ix, ok := e.Fun.(*ast.IndexExpr); ok && len(e.Args) == 0 && types.ExprString(ix.X) == "reflect.TypeFor" {
			return "type " + typeStr(pk.TypesInfo.TypeOf(ix.Index))
		}
		if s, ok := e.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Elem" && len(e.Args) == 0 {
			if c, ok := s.X.(*ast.CallExpr); ok && len(c.Args) == 1 && types.ExprString(c.Fun) == "reflect.TypeOf" {
				return "type " + typeStr(deref(pk.TypesInfo.TypeOf(c.Args[0])))
			}
		}
		if len(e.Args) == 1 {
			if types.ExprString(e.Fun) == "reflect.TypeOf" {
				return "type " + typeStr(pk.TypesInfo.TypeOf(e.Args[0]))
			}
			if tv, ok := pk.TypesInfo.Types[e.Fun]; ok && tv.IsType() {
				return p.canonical(pk, e.Args[0])
			}
		}
	}
	return types.ExprString(e)
}

// checkTables compares lookup tables with the reviewed ones.
func (r *Report) checkTables(names ...string) {
	r.Rule("table", "the table the code looks things up in holds exactly the reviewed entries and is never written after initialisation")
	want := map[string]string{}
	for _, l := range strings.Split(strings.TrimSpace(tablesTSV), "\n") {
		if n, v, ok := strings.Cut(l, "\t"); ok {
			want[n] = v
		}
	}
	for _, n := range names {
		init, pk := r.P.varInit(r.P.XML.Pkg.Path(), n)
		if init == nil {
			r.Undecided("table", n, "", "no such table")
			continue
		}
		where := r.P.Pos(init.Pos())
		have := r.P.canonical(pk, init)
		if have != want[n] {
			a, b := strings.Fields(have), strings.Fields(want[n])
			i := 0
			for i < len(a) && i < len(b) && a[i] == b[i] {
				i++
			}
			at := func(s []string) string {
				if i < len(s) {
					return s[i]
				}
				return "nothing"
			}
			r.Ob("table", n, where, false, "entry %d is %s, reviewed %s", i+1, at(a), at(b))
			continue
		}
		g := r.P.XML.Var(n)
		r.Ob("table", n, where, g != nil && r.P.initOnly(g), "%d entries", len(strings.Fields(have)))
	}
}

// ---- recursion ----

// callees lists the functions of the module fn calls directly.
func (p *Program) calleesOf(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				out = append(out, mc.Fn.(*ssa.Function))
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && p.InModule(f) {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func (p *Program) reaches(from, to *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == to {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, c := range p.calleesOf(f) {
			if walk(c) {
				return true
			}
		}
		return false
	}
	for _, c := range p.calleesOf(from) {
		if walk(c) {
			return true
		}
	}
	return false
}

// checkRecursion: recursion that consumes the document hands on a depth.
func (r *Report) checkRecursion() {
	r.Rule("recursion", "every cycle of calls among functions that read the document hands on an increased depth, in one function of the cycle the recursion goes on only behind a comparison of the depth with a constant limit, and every other reader of nested content is free of recursion")
	rd := r.P.Method(r.P.XML, "Decoder", "rawToken")
	if rd == nil {
		rd = r.P.Method(r.P.XML, "Decoder", "getc")
	}
	if rd == nil {
		r.Undecided("recursion", "reader", "", "no tokenizer found")
		return
	}
	var readers []*ssa.Function
	for _, fn := range r.P.Funcs {
		if fn.Pkg == r.P.XML && !isSpecFunc(fn) && r.P.reaches(fn, rd) {
			readers = append(readers, fn)
		}
	}
	n := 0
	for _, fn := range readers {
		if !r.P.reaches(fn, fn) {
			r.Ob("recursion", shortFn(fn), r.P.Pos(fn.Pos()), true, "not recursive")
			continue
		}
		n++
		r.recursive(fn)
	}
	r.Units["recursive_readers"] = n
	// user-defined decoding would restart the depth count
	for _, pk := range []*ssa.Package{r.P.MPD, r.P.XML} {
		for name, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.IsInterface(tt) {
					continue
				}
				if s := r.P.Prog.MethodSets.MethodSet(tt).Lookup(pk.Pkg, "UnmarshalXML"); s != nil {
					m := r.P.Prog.MethodValue(s)
					if m != nil && m.Synthetic == "" && r.P.reaches(m, rd) {
						r.Undecided("recursion", name+".UnmarshalXML", r.P.Pos(m.Pos()), "decodes below itself with a depth of its own")
					}
				}
			}
		}
	}
}

// depthArg: how v differs from an int parameter of fn.
func depthArg(v ssa.Value, fn *ssa.Function) (param int, k int64, ok bool) {
	for {
		switch x := v.(type) {
		case *ssa.Parameter:
			for i, q := range fn.Params {
				if q == x {
					return i, k, true
				}
			}
			return 0, 0, false
		case *ssa.BinOp:
			if c, isC := x.Y.(*ssa.Const); isC && (x.Op == token.ADD || x.Op == token.SUB) {
				d := c.Int64()
				if x.Op == token.SUB {
					d = -d
				}
				k += d
				v = x.X
				continue
			}
			if c, isC := x.X.(*ssa.Const); isC && x.Op == token.ADD {
				k += c.Int64()
				v = x.Y
				continue
			}
			return 0, 0, false
		default:
			return 0, 0, false
		}
	}
}

func isPlainInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// countsDepth: some function on a cycle with fn has a place for a depth: a
// number or list among its parameters or variables, or a number it stores.
func (p *Program) countsDepth(fn *ssa.Function) bool {
	holds := func(t types.Type) bool {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return isPlainInt(pt.Elem())
		}
		switch u := t.Underlying().(type) {
		case *types.Slice, *types.Chan, *types.Map, *types.Signature:
			return true
		case *types.Struct:
			for i := range u.NumFields() {
				if isPlainInt(u.Field(i).Type()) {
					return true
				}
			}
		}
		return isPlainInt(t)
	}
	for _, f := range p.SourceFuncs() {
		if f != fn && (!p.reaches(fn, f) || !p.reaches(f, fn)) {
			continue
		}
		for _, q := range f.Params {
			if holds(q.Type()) {
				return true
			}
		}
		for _, q := range f.FreeVars {
			if holds(q.Type()) {
				return true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isPlainInt(st.Val.Type()) {
					if a, local := st.Addr.(*ssa.Alloc); !local || a.Heap {
						return true
					}
				}
			}
		}
	}
	return false
}

func (r *Report) recursive(fn *ssa.Function) {
	p := r.P
	where := p.Pos(fn.Pos())
	depthOf := func(f *ssa.Function) int {
		for i, q := range f.Params {
			if isPlainInt(q.Type()) {
				return i
			}
		}
		return -1
	}
	// calls of fn that stay on a cycle through fn
	d := depthOf(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			callee := c.Common().StaticCallee()
			if callee == nil || !p.InModule(callee) || callee != fn && !p.reaches(callee, fn) {
				continue
			}
			name := shortFn(fn) + " -> " + shortFn(callee)
			at := p.Pos(in.Pos())
			cd := depthOf(callee)
			if d < 0 || cd < 0 {
				if cd >= 0 {
					if cst, isC := c.Common().Args[cd].(*ssa.Const); isC {
						r.Ob("recursion", name, at, false, "the call is part of a recursion that reads the document but restarts the depth at %s", cst)
						continue
					}
				}
				if !p.countsDepth(fn) {
					r.Ob("recursion", name, at, false, "the call is part of a recursion that reads the document, and nothing in it counts the depth")
					continue
				}
				// whatever brings the depth back in is judged where it does
				r.Undecided("recursion", name, at, "the call is part of a recursion that reads the document; how it carries the depth is not known")
				continue
			}
			src, k, ok := depthArg(c.Common().Args[cd], fn)
			switch {
			case !ok || src != d:
				if cst, isC := c.Common().Args[cd].(*ssa.Const); isC {
					r.Ob("recursion", name, at, false, "the call is part of a recursion that reads the document but restarts the depth at %s", cst)
				} else {
					r.Undecided("recursion", name, at, "cannot tell how the depth handed on relates to the caller's")
				}
			case k < 0:
				r.Ob("recursion", name, at, false, "the depth handed on is smaller than the caller's")
			case k == 0 && callee == fn:
				// allowed only where something else shrinks: the path still to go
				grows := false
				for i, q := range fn.Params {
					if _, isSl := q.Type().Underlying().(*types.Slice); isSl && c.Common().Args[i] != ssa.Value(q) {
						grows = true
					}
				}
				r.Ob("recursion", name, at, grows, "the depth is handed on unchanged by a function calling itself")
			case k == 0 && !descends(c) && p.zeroCycle(callee, fn, depthOf):
				r.Ob("recursion", name, at, false, "a cycle of calls reads the document without increasing the depth")
			default:
				r.Ob("recursion", name, at, true, "depth + %d", k)
			}
		}
	}
	// the limit
	if d >= 0 {
		switch p.limited(fn, d) {
		case constLimit:
			r.Ob("recursion", shortFn(fn)+": limit", where, true, "goes on only with a depth below a constant")
			return
		case someLimit:
			r.Undecided("recursion", shortFn(fn)+": limit", where, "goes on behind a test of the depth of unknown meaning")
			return
		}
	}
	unknown := false
	// some other function of every cycle checks
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool // reaches fn avoiding limited functions
	walk = func(f *ssa.Function) bool {
		for _, c := range p.calleesOf(f) {
			if onlyDescends(f, c) {
				continue // as often as a path is long
			}
			if c == fn {
				if f != fn {
					return true
				}
				continue
			}
			if seen[c] {
				continue
			}
			seen[c] = true
			if cd := depthOf(c); cd >= 0 {
				k := p.limited(c, cd)
				unknown = unknown || k == someLimit
				if k != noLimit {
					continue
				}
			}
			if (c == fn || p.reaches(c, fn)) && walk(c) {
				return true
			}
		}
		return false
	}
	if walk(fn) {
		r.Ob("recursion", shortFn(fn)+": limit", where, false, "no function on a recursion through it compares the depth with a limit before going on")
	} else if unknown {
		r.Undecided("recursion", shortFn(fn)+": limit", where, "other functions of the recursion test the depth in an unknown way")
	} else {
		r.Ob("recursion", shortFn(fn)+": limit", where, true, "every other function of the recursion checks the depth first")
	}
}

// descends: the call hands on a path of its own making, not one of the
// caller's: what is left of the paths of the type, which are finite, is less.
func descends(c ssa.CallInstruction) bool {
	for _, a := range c.Common().Args {
		if st, ok := a.Type().Underlying().(*types.Slice); !ok || !isStringType(st.Elem()) {
			continue
		}
		if k, isC := a.(*ssa.Const); isC && k.IsNil() {
			continue
		}
		if _, isP := a.(*ssa.Parameter); !isP {
			return true
		}
	}
	return false
}

func onlyDescends(f, callee *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == callee {
				if !descends(c) {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

// zeroCycle: from leads back to to without increasing the depth.
func (p *Program) zeroCycle(from, to *ssa.Function, depthOf func(*ssa.Function) int) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == to {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				if callee == nil || !p.InModule(callee) || depthOf(callee) < 0 || depthOf(f) < 0 {
					continue
				}
				if callee == f {
					continue
				}
				src, k, ok := depthArg(c.Common().Args[depthOf(callee)], f)
				if ok && src == depthOf(f) && k == 0 && !descends(c) && walk(callee) {
					return true
				}
			}
		}
		return false
	}
	return walk(from)
}

type limitKind int

const (
	noLimit limitKind = iota
	someLimit
	constLimit
)

// limited: fn goes on with the recursion only behind a comparison of its depth
// with a constant (constLimit), or at least behind some test of it (someLimit).
func (p *Program) limited(fn *ssa.Function, d int) limitKind {
	kind := constLimit
	found := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			callee := c.Common().StaticCallee()
			if callee == nil || !p.InModule(callee) || callee != fn && !p.reaches(callee, fn) {
				continue
			}
			found = true
			best := noLimit
			for _, g := range fn.Blocks {
				ifi, ok := g.Instrs[len(g.Instrs)-1].(*ssa.If)
				if !ok || !dependsOn(ifi.Cond, fn.Params[d], map[ssa.Value]bool{}) {
					continue
				}
				for i, s := range g.Succs {
					if len(s.Preds) == 1 && s.Dominates(b) {
						k := someLimit
						if limitTest(ifi.Cond, fn, d, i == 0) {
							k = constLimit
						}
						best = max(best, k)
					}
				}
			}
			kind = min(kind, best)
		}
	}
	if !found {
		return noLimit
	}
	return kind
}

// limitTest: that cond is taken means that the depth is below a constant.
func limitTest(cond ssa.Value, fn *ssa.Function, d int, taken bool) bool {
	if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
		return limitTest(n.X, fn, d, !taken)
	}
	cmp, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := cmp.X, cmp.Y, cmp.Op
	if boundedConst(x, 0) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	src, _, ok := depthArg(x, fn)
	if !ok || src != d || !boundedConst(y, 0) {
		return false
	}
	switch op {
	case token.LSS, token.LEQ:
		return taken
	case token.GTR, token.GEQ:
		return !taken
	}
	return false
}

// boundedConst: one of a few integer constants, none of them large.
func boundedConst(v ssa.Value, depth int) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return isPlainInt(v.Type()) && v.Int64() <= 1000000
	case *ssa.Phi:
		for _, e := range v.Edges {
			if depth > 3 || !boundedConst(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Convert:
		return boundedConst(v.X, depth+1)
	}
	return false
}

func dependsOn(v, on ssa.Value, seen map[ssa.Value]bool) bool {
	if v == on {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if a, ok := v.(*ssa.Alloc); ok { // a local variable: what is stored in it
		for _, ref := range *a.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == v && dependsOn(st.Val, on, seen) {
				return true
			}
		}
	}
	var ops [16]*ssa.Value
	for _, op := range in.Operands(ops[:0]) {
		if *op != nil && dependsOn(*op, on, seen) {
			return true
		}
	}
	return false
}

// ---- progress ----

// checkProgress: loops of the decoder consume input or are bounded.
func (r *Report) checkProgress() {
	r.Rule("progress", "every cycle of every loop reachable from the decoder reads input (more than it gives back), advances a bounded counter or iterator, or shortens the element stack; no loop goes on after a read reported failure")
	p := r.P
	getc := p.Method(p.XML, "Decoder", "getc")
	if getc == nil {
		r.Undecided("progress", "getc", "", "no byte reader found")
		return
	}
	gives := map[*ssa.Function]bool{}
	if f := p.Method(p.XML, "Decoder", "ungetc"); f != nil {
		gives[f] = true
	}
	pops := map[*ssa.Function]bool{}
	if f := p.Method(p.XML, "Decoder", "pop"); f != nil {
		pops[f] = true
	}
	n := 0
	for _, fn := range p.Funcs {
		if fn.Pkg != p.XML || isSpecFunc(fn) || len(fn.Blocks) == 0 {
			continue
		}
		if !(fn == getc || p.reaches(fn, getc) || takesDecoder(fn)) {
			continue
		}
		for _, h := range loopHeaders(fn) {
			n++
			r.loopProgress(fn, h, getc, gives, pops)
		}
	}
	r.Units["decoder_loops"] = n
}

func takesDecoder(fn *ssa.Function) bool {
	for _, q := range fn.Params {
		if isNamed(deref(q.Type()), "xml", "Decoder") {
			return true
		}
	}
	return false
}

// movesOtherwise: what decides whether the loop goes on is another value in
// every round, though not by a step known to lead somewhere.
func movesOtherwise(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	moved := map[ssa.Value]bool{}
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		all := true
		for i, q := range h.Preds {
			if body[q] && carries(phi.Edges[i], phi, map[ssa.Value]bool{}) {
				all = false
			}
		}
		moved[phi] = all
	}
	var from func(v ssa.Value, d int) bool
	from = func(v ssa.Value, d int) bool {
		if moved[v] {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if !ok || d > 4 || !body[in.Block()] {
			return false
		}
		switch in.(type) {
		case *ssa.BinOp, *ssa.Call, *ssa.UnOp, *ssa.Convert:
			for _, op := range in.Operands(nil) {
				if *op != nil && from(*op, d+1) {
					return true
				}
			}
		}
		return false
	}
	for b := range body {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if ok && (!body[b.Succs[0]] || !body[b.Succs[1]]) && from(ifi.Cond, 0) {
			return true
		}
	}
	return false
}

// carries: v is the unchanged variable, on some way.
func carries(v ssa.Value, phi *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(phi) {
		return true
	}
	p, ok := v.(*ssa.Phi)
	if !ok || seen[v] || p.Block() == phi.Block() {
		return false
	}
	seen[v] = true
	for _, e := range p.Edges {
		if carries(e, phi, seen) {
			return true
		}
	}
	return false
}

// standsStill: a round of the loop may change nothing at all.
func standsStill(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	quiet := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Next, *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer:
				return false
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				if f := in.Call.StaticCallee(); f == nil || !libPure(f) {
					return false
				}
			}
		}
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] || !quiet(b) {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s == h {
				same := true
				for _, in := range h.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for i, q := range h.Preds {
						if q == b && !carries(phi.Edges[i], phi, map[ssa.Value]bool{}) {
							same = false
						}
					}
				}
				if same {
					return true
				}
			} else if body[s] && walk(s) {
				return true
			}
		}
		return false
	}
	return walk(h)
}

func loopHeaders(fn *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, q := range b.Preds {
			if b.Dominates(q) {
				out = append(out, b)
				break
			}
		}
	}
	return out
}

func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, q := range h.Preds {
		if h.Dominates(q) {
			work = append(work, q)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	return body
}

func (r *Report) loopProgress(fn *ssa.Function, h *ssa.BasicBlock, getc *ssa.Function, gives, pops map[*ssa.Function]bool) {
	p := r.P
	body := loopBody(h)
	pos := token.NoPos
	for _, b := range fn.Blocks {
		if body[b] {
			for _, in := range b.Instrs {
				if in.Pos() != token.NoPos && (pos == token.NoPos || in.Pos() < pos) {
					pos = in.Pos()
				}
			}
		}
	}
	where := p.Pos(pos)
	name := fmt.Sprintf("%s loop", shortFn(fn))
	if boundedLoop(h, body) {
		r.Ob("progress", name, where, true, "bounded by a counter, iterator or list")
		return
	}
	// weight of a block
	w := map[*ssa.BasicBlock]int{}
	for b := range body {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				if mu, ok := in.(*ssa.Store); ok && shortens(mu) {
					w[b]++
				}
				continue
			}
			cc := c.Common()
			f := cc.StaticCallee()
			switch {
			case cc.IsInvoke() || f == nil:
				if cc.IsInvoke() && (cc.Method.Name() == "ReadByte" || cc.Method.Name() == "Read" || cc.Method.Name() == "Token") {
					w[b]++
				}
			case gives[f]:
				w[b]--
			case f == getc || pops[f] || p.InModule(f) && (p.reaches(f, getc) || reachesAny(p, f, pops)):
				w[b]++
			}
		}
	}
	// a cycle through h of total weight <= 0?
	const inf = 1 << 30
	dist := map[*ssa.BasicBlock]int{}
	var blocks []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if body[b] {
			blocks = append(blocks, b)
			dist[b] = inf
		}
	}
	dist[h] = w[h]
	back := inf
	for i := 0; i <= len(blocks); i++ {
		for _, b := range blocks {
			if dist[b] >= inf {
				continue
			}
			for _, s := range b.Succs {
				if s == h {
					if dist[b] < back {
						back = dist[b]
					}
					continue
				}
				if body[s] && dist[b]+w[s] < dist[s] {
					dist[s] = dist[b] + w[s]
				}
			}
		}
	}
	if back <= 0 {
		if movesOtherwise(h, body) || len(w) == 0 && !standsStill(h, body) {
			r.Undecided("progress", name, where, "the loop moves in a way that is not known to end")
			return
		}
		r.Ob("progress", name, where, false, "a round of the loop may consume nothing (net %d)", back)
		return
	}
	// after a failed read the loop is left
	for _, b := range blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		fail := failedRead(ifi.Cond, true, func(f *ssa.Function) bool { return f == getc || p.InModule(f) && p.reaches(f, getc) })
		if fail < 0 {
			continue
		}
		_, failed := failureBranch(ifi.Cond, true)
		if s := b.Succs[fail]; body[s] && reachesHeaderFreely(b, s, h, failed, body, w) {
			r.Ob("progress", name, where, false, "the loop goes on after the read tested at %s failed", p.Pos(ifi.Cond.Pos()))
			return
		}
	}
	r.Ob("progress", name, where, true, "every round consumes at least %d", back)
}

// reachesHeaderFreely: another round is reached without a further read when
// failed reported failure (an error that is not nil, or false).
func reachesHeaderFreely(from, b, h *ssa.BasicBlock, failed ssa.Value, body map[*ssa.BasicBlock]bool, w map[*ssa.BasicBlock]int) bool {
	type state struct {
		b     *ssa.BasicBlock
		known ssa.Value // what holds the failure now
	}
	seen := map[state]bool{}
	var walk func(from, b *ssa.BasicBlock, v ssa.Value) bool
	walk = func(from, b *ssa.BasicBlock, v ssa.Value) bool {
		if b == h {
			return true
		}
		for k, p := range b.Preds {
			if p != from {
				continue
			}
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok && phi.Edges[k] == v {
					v = phi
					break
				}
			}
			break
		}
		if seen[state{b, v}] || !body[b] || w[b] > 0 {
			return false
		}
		seen[state{b, v}] = true
		if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if t, ok := failureBranch(ifi.Cond, true); ok == v && v != nil {
				return walk(b, b.Succs[t], v)
			}
		}
		for _, s := range b.Succs {
			if walk(b, s, v) {
				return true
			}
		}
		return false
	}
	return walk(from, b, failed)
}

// failureBranch tells which successor is taken when the value the branch looks
// at is an error, or false.
func failureBranch(c ssa.Value, pos bool) (int, ssa.Value) {
	side := func(first bool) int {
		if first == pos {
			return 0
		}
		return 1
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return failureBranch(x.X, !pos)
		}
	case *ssa.BinOp:
		if n, ok := x.Y.(*ssa.Const); ok && n.IsNil() && isErrorType(x.X.Type()) && (x.Op == token.NEQ || x.Op == token.EQL) {
			return side(x.Op == token.NEQ), x.X
		}
		return 0, nil
	}
	return side(false), c
}

// failedRead tells which successor of a branch is taken when a read failed.
func failedRead(c ssa.Value, pos bool, reads func(*ssa.Function) bool) int {
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return failedRead(x.X, !pos, reads)
		}
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok || !isBoolType(x.Type()) {
			return -1
		}
		f := call.Call.StaticCallee()
		n := call.Call.Signature().Results().Len()
		if f == nil || x.Index != n-1 || !reads(f) {
			return -1
		}
		if f.Name() != "getc" && f.Name() != "mustgetc" {
			return -1 // false may mean something else
		}
		if pos {
			return 1
		}
		return 0
	case *ssa.BinOp:
		if !isErrorType(x.X.Type()) || x.Op != token.NEQ && x.Op != token.EQL {
			return -1
		}
		if c, ok := x.Y.(*ssa.Const); !ok || !c.IsNil() {
			return -1
		}
		ex, ok := x.X.(*ssa.Extract)
		var call *ssa.Call
		if ok {
			call, _ = ex.Tuple.(*ssa.Call)
		} else {
			call, _ = x.X.(*ssa.Call)
		}
		if call == nil {
			return -1
		}
		f := call.Call.StaticCallee()
		if f == nil || !reads(f) {
			return -1
		}
		if (x.Op == token.NEQ) == pos {
			return 0
		}
		return 1
	}
	return -1
}

func reachesAny(p *Program, f *ssa.Function, to map[*ssa.Function]bool) bool {
	for t := range to {
		if p.reaches(f, t) {
			return true
		}
	}
	return false
}

// shortens: the store replaces a list head by its successor.
func shortens(st *ssa.Store) bool {
	ld, ok := st.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	return types.Identical(fa.X.Type(), ld.Type())
}

// boundedLoop: a range over something finite, a counter running towards an
// unchanged bound, a walk along a list, or a slice that gets shorter.
func boundedLoop(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	// what every round passes through
	every := func(b *ssa.BasicBlock) bool {
		for _, q := range h.Preds {
			if body[q] && h.Dominates(q) && !b.Dominates(q) {
				return false
			}
		}
		return true
	}
	leaves := func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if !body[s] {
				return true
			}
		}
		return false
	}
	invariant := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return !ok || !body[in.Block()]
	}
	for b := range body {
		if !every(b) || !leaves(b) {
			continue
		}
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		switch c := ifi.Cond.(type) {
		case *ssa.Extract:
			if _, ok := c.Tuple.(*ssa.Next); ok {
				return true
			}
		case *ssa.BinOp:
			for _, x := range []ssa.Value{c.X, c.Y} {
				y := c.Y
				if x == c.Y {
					y = c.X
				}
				if steps(x, h, body) && (invariant(y) || isLenOf(y, invariant)) {
					return true
				}
				if call, ok := x.(*ssa.Call); ok {
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && shrinks(call.Call.Args[0], h, body) {
						return true
					}
				}
				if walksList(x, h, body) {
					return true
				}
			}
		}
	}
	return false
}

func isLenOf(v ssa.Value, invariant func(ssa.Value) bool) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
		return true
	}
	if f := c.Call.StaticCallee(); f != nil && (f.Name() == "NumField" || f.Name() == "Len") {
		return true
	}
	return c.Call.IsInvoke() && (c.Call.Method.Name() == "NumField" || c.Call.Method.Name() == "Len" || c.Call.Method.Name() == "NumMethod")
}

// steps: v is (a step away from) a variable of the loop that always moves by
// constants of one sign.
func steps(v ssa.Value, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok {
		if b, isB := v.(*ssa.BinOp); isB && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, isC := b.Y.(*ssa.Const); isC {
				phi, ok = b.X.(*ssa.Phi)
			}
		}
	}
	if !ok || phi.Block() != h {
		return false
	}
	sign := 0
	for i, q := range h.Preds {
		if !body[q] {
			continue
		}
		b, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || b.X != ssa.Value(phi) || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || !isPlainInt(c.Type()) || c.Int64() == 0 {
			return false
		}
		s := 1
		if (c.Int64() < 0) != (b.Op == token.SUB) {
			s = -1
		}
		if sign != 0 && sign != s {
			return false
		}
		sign = s
	}
	return sign != 0
}

// shrinks: a slice or string of the loop that every round cuts.
func shrinks(v ssa.Value, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok || phi.Block() != h {
		return false
	}
	for i, q := range h.Preds {
		if body[q] {
			s, ok := phi.Edges[i].(*ssa.Slice)
			if !ok || s.X != ssa.Value(phi) {
				return false
			}
		}
	}
	return true
}

// walksList: x = x.next
func walksList(v ssa.Value, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok || phi.Block() != h {
		return false
	}
	for i, q := range h.Preds {
		if !body[q] {
			continue
		}
		ld, ok := phi.Edges[i].(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok || fa.X != ssa.Value(phi) {
			return false
		}
	}
	return true
}

// ---- dropped errors ----

// checkDropped: no error result is thrown away.
func (r *Report) checkDropped() {
	r.Rule("dropped-error", "no call on the reading side of the codec or in the document model drops an error result, except writes to in-memory buffers")
	n := 0
	for _, fn := range r.P.Funcs {
		in := fnPkg(fn) == r.P.MPD.Pkg || fnPkg(fn) == r.P.XML.Pkg && (takesDecoder(fn) || fn.Name() == "copyValue" || fn.Name() == "Unmarshal")
		if !in || isSpecFunc(fn) || fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				res := c.Common().Signature().Results()
				if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
					continue
				}
				n++
				if r.errUsed(c, res.Len()) || r.harmless(c) {
					continue
				}
				r.Ob("dropped-error", shortFn(fn)+": "+callName(c.Common()), r.P.Pos(i.Pos()), false, "the error result is dropped")
			}
		}
	}
	r.Units["fallible_calls"] = n
	r.Ob("dropped-error", "calls", "", n > 10, "%d fallible calls", n)
}

func callName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return shortFn(f)
	}
	if c.IsInvoke() {
		return c.Method.Name()
	}
	return c.Value.Name()
}

func (r *Report) errUsed(c ssa.CallInstruction, n int) bool {
	v, ok := c.(*ssa.Call)
	if !ok {
		return false
	}
	for _, ref := range *v.Referrers() {
		if _, ok := ref.(*ssa.DebugRef); ok {
			continue
		}
		ex, ok := ref.(*ssa.Extract)
		if !ok {
			return true
		}
		if ex.Index == n-1 {
			for _, u := range *ex.Referrers() {
				if _, ok := u.(*ssa.DebugRef); !ok {
					return true
				}
			}
		}
	}
	return false
}

// harmless: writers that cannot fail or keep their error.
func (r *Report) harmless(c ssa.CallInstruction) bool {
	cc := c.Common()
	sticky := func(t types.Type) bool {
		n := namedOf(t)
		if n == nil || n.Obj().Pkg() == nil {
			return false
		}
		s := n.Obj().Pkg().Name() + "." + n.Obj().Name()
		return s == "xml.printer" || s == "bytes.Buffer" || s == "strings.Builder" || s == "bufio.Writer"
	}
	isSticky := func(v ssa.Value) bool {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		return sticky(v.Type())
	}
	for _, a := range cc.Args {
		if isSticky(a) {
			return true
		}
	}
	if _, isDefer := c.(*ssa.Defer); isDefer && strings.HasSuffix(callName(cc), "Close") {
		return true
	}
	// closing a file that was only read
	if f := cc.StaticCallee(); f != nil && f.String() == "(*os.File).Close" && len(cc.Args) == 1 {
		if x, ok := cc.Args[0].(*ssa.Extract); ok {
			if o, ok := x.Tuple.(*ssa.Call); ok && o.Call.StaticCallee() != nil && o.Call.StaticCallee().String() == "os.Open" {
				return true
			}
		}
	}
	// an error remembered by the decoder itself
	if f := cc.StaticCallee(); f != nil && f.Name() == "syntaxError" {
		return true
	}
	return false
}

func init() {
	codecRules["C20"] = func(r *Report) { r.checkTables("entity", "first", "second") }
	codecRules["C21"] = func(r *Report) { r.checkProgress() }
	codecRules["C22"] = func(r *Report) { r.checkRecursion() }
	codecRules["C19"] = func(r *Report) { r.checkDropped() }
	types := func(r *Report) {
		r.checkTables("attrType", "unmarshalerType", "unmarshalerAttrType", "textUnmarshalerType", "marshalerType", "marshalerAttrType", "textMarshalerType", "nameType")
	}
	codecRules["C27"] = types
	codecRules["C28"] = func(r *Report) { types(r); r.checkDropped() }
}

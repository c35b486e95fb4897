package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed spec/mpd_spec.go.txt
var mpdSpec []byte

//go:embed spec/xml_spec.go.txt
var xmlSpec []byte

const specPrefix = "verifSpec_"

func overlays(dir string) map[string][]byte {
	return map[string][]byte{
		filepath.Join(dir, "mpd", "zz_verif_spec.go"): bytes.Replace(mpdSpec, []byte("const verifSpec_buf = 32"), []byte(fmt.Sprintf("const verifSpec_buf = %d", bufferSize(filepath.Join(dir, "mpd")))), 1),
		filepath.Join(dir, "xml", "zz_verif_spec.go"): xmlSpec,
	}
}

// bufferSize is the length of the byte array Duration.String renders into:
// any length holding the longest result ("-PT2562047H47M16.855S") is as good.
func bufferSize(dir string) int {
	size := 32
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		file, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != "String" || fd.Recv == nil || fd.Body == nil {
				continue
			}
			t := fd.Recv.List[0].Type
			if st, ok := t.(*ast.StarExpr); ok {
				t = st.X
			}
			if id, ok := t.(*ast.Ident); !ok || id.Name != "Duration" {
				continue
			}
			n, found := 0, 0
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				if at, ok := x.(*ast.ArrayType); ok {
					if l, ok := at.Len.(*ast.BasicLit); ok {
						if v, err := strconv.Atoi(l.Value); err == nil {
							n, found = v, found+1
						}
					}
				}
				return true
			})
			if found == 1 && n >= len("-PT2562047H47M16.855S") && n <= 4096 {
				size = n
			}
		}
	}
	return size
}

func isSpecFunc(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return strings.HasPrefix(fn.Name(), specPrefix)
}

// subject resolves "Type_Method" or "Func" to the function it names.
func (p *Program) subject(pkg *ssa.Package, name string) *ssa.Function {
	if t, m, ok := strings.Cut(name, "_"); ok {
		return p.Method(pkg, t, m)
	}
	return pkg.Func(name)
}

// specs: every subject has a method receiver turned first parameter.
func (p *Program) specOf(pkg *ssa.Package, name string) *ssa.Function {
	return pkg.Func(specPrefix + name)
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

// nonNilParams: receivers and pointer arguments that the caller must supply.
func nonNilParams(except map[int]bool) func(ev *Eval, ps []Value) BDD {
	return func(ev *Eval, ps []Value) BDD {
		g := bTrue
		for i, p := range ps {
			if except[i] {
				continue
			}
			for _, x := range p.parts {
				if _, ok := x.t.typ.Underlying().(*types.Pointer); ok {
					g = ev.B.And(g, ev.B.Not(ev.eqTerms(x.t, ev.Nil())))
				}
			}
		}
		return g
	}
}

type eqOpt struct {
	pkg      *ssa.Package
	nilable  []int    // pointer parameters that may be nil
	opaque   []string // functions ("Type_Method") both sides call without looking inside
	events   []string // functions both sides call for their effects without looking inside
	noBounds bool     // index and slice bounds are taken to hold
	strict   bool     // results count also together with an error
	pre      func(ev *Eval, ps []Value) BDD
}

// equivalence compares subject and reference and records one obligation.
func (r *Report) equivalence(rule, name string, nilable ...int) {
	r.equiv(rule, name, eqOpt{nilable: nilable})
}

func (r *Report) equiv(rule, name string, opt eqOpt) {
	pkg := opt.pkg
	if pkg == nil {
		pkg = r.P.MPD
	}
	nilable := opt.nilable
	sub, ref := r.P.subject(pkg, name), r.P.specOf(pkg, name)
	missing := func(format string, args ...any) {
		where := ""
		if sub != nil {
			where = r.P.Pos(sub.Pos())
		}
		if n := name[strings.LastIndexByte(name, '_')+1:]; n[0] >= 'A' && n[0] <= 'Z' && sub == nil {
			r.Ob(rule, name, where, false, format, args...)
			return
		}
		r.Undecided(rule, name, where, format, args...)
	}
	if sub != nil {
		r.counterWidth(rule, name, sub)
	}
	why, unfit := r.P.pruned[specPrefix+name]
	if ref == nil || unfit {
		if unfit {
			missing("the reference does not fit the code any more: %s", why)
			return
		}
		panic("no reference for " + name)
	}
	if sub == nil {
		missing("function not found")
		return
	}
	if g := sub.TypeParams(); g != nil && g.Len() > 0 {
		inst := r.P.instances(sub)
		sub = nil
		for _, f := range inst {
			if types.Identical(f.Signature.Params().At(0).Type(), ref.Signature.Params().At(0).Type()) {
				sub = f
			}
		}
		if sub == nil && len(inst) > 0 {
			sub = inst[0]
		}
		if sub == nil {
			missing("no instance of the generic function to analyse")
			return
		}
	}
	if !sameParams(sub, ref) {
		missing("signature changed: %s", sub.Signature)
		return
	}
	where := r.P.Pos(sub.Pos())
	r.guarded(rule, name, where, func() {
		inlined := map[*ssa.Function]bool{}
		var first *comparison
		for round := 0; ; round++ {
			cmp, e, calls := r.tryCompare(pkg, sub, ref, opt, nilable, inlined, first != nil)
			if cmp == nil {
				cmp = first
			}
			if len(cmp.diffs) == 0 {
				r.Ob(rule, name, where, true, "summary equals the reference (%d value numbers, %d atoms)", e.nterm, len(e.atomList))
				return
			}
			// a function only one side calls is looked into on both
			more := false
			for f, who := range calls {
				if who != 3 && f != sub && !inlined[f] && round < 4 {
					inlined[f] = true
					more = true
				}
			}
			if more {
				continue
			}
			// Seen from outside, a call may touch everything; before a difference
			// is believed, the small straight-line functions are looked into.
			if first == nil {
				for f := range calls {
					if f != sub && !inlined[f] && f.Pkg == r.P.XML && straightLine(f) {
						inlined[f] = true
						more = true
					}
				}
				if more {
					first = cmp
					round = 3
					continue
				}
			} else {
				if os.Getenv("VERIF_DEBUG") != "" && cmp != first {
					println("SECOND", name, cmp.structure)
					for _, d := range cmp.diffs {
						println("   ", d.what, d.when)
					}
				}
				cmp = first
			}
			if os.Getenv("VERIF_DEBUG") != "" {
				println("CMP", name, "structure:", cmp.structure, "entered", cmp.entered, "missing", cmp.missing)
			}
			var ss []string
			for _, d := range cmp.diffs {
				ss = append(ss, d.what+": "+d.when)
				if cmp.structure == "" && strings.Contains(d.when, otherTextNote) {
					cmp.structure = "another way to put a text together"
				}
			}
			if cmp.structure != "" && !(cmp.missing && r.P.poorer(sub, ref)) {
				said := ""
				for k := 1; k <= maxPeel && cmp.peel != nil; k++ {
					c, ok := cmp.peel(k)
					if !ok {
						break
					}
					if len(c.diffs) == 0 {
						said = fmt.Sprintf("; runs with at most %d rounds of every loop agree", k)
						continue
					}
					for len(c.diffs) > 1 && beyondTheory(c.diffs[0]) {
						c.diffs = c.diffs[1:]
					}
					d := fmt.Sprintf("runs with at most %d rounds of every loop depart from the reference: %s: %s", k, c.diffs[0].what, c.diffs[0].when)
					if !beyondTheory(c.diffs[0]) && r.P.sameMeans(sub, ref, inlined) {
						r.Ob(rule, name, where, false, "%s", d)
						return
					}
					said = "; " + d + " (by other means)"
					break
				}
				ss[0] += said
				r.Undecided(rule, name, where, "built differently from the reference: %s; first difference: %s", cmp.structure, ss[0])
				return
			}
			// Loops reached from another point may have a round laid out before
			// them; runs of few rounds tell.
			if cmp.entered {
				agree := cmp.peel != nil
				for k := 1; k <= maxPeel && agree; k++ {
					c, ok := cmp.peel(k)
					agree = ok && len(c.diffs) == 0
				}
				if agree {
					r.Undecided(rule, name, where, "enters a loop at another point than the reference; runs with at most %d rounds of every loop agree; first difference: %s", maxPeel, ss[0])
					return
				}
			}
			if g := r.P.unknownTable(sub, ref); g != nil {
				r.Undecided(rule, name, where, "looks things up in %s, whose content is computed; first difference: %s", g.Name(), ss[0])
				return
			}
			r.Ob(rule, name, where, false, "departs from the reference: %s", strings.Join(ss, "; "))
			return
		}
	})
}

// beforeLoops: the guard does not depend on what a loop did.
func (e *Engine) beforeLoops(g BDD) bool {
	for _, i := range e.B.Support(g) {
		if afterLoop(e.atomList[i], 0) {
			return false
		}
	}
	return true
}

func afterLoop(t *Term, d int) bool {
	if d > 40 || strings.Contains(t.aux, "@") || strings.HasPrefix(t.aux, "k!") || strings.HasPrefix(t.aux, "phi!") {
		return true
	}
	for _, a := range t.args {
		if afterLoop(a, d+1) {
			return true
		}
	}
	return false
}

// tryCompare is compare; in a second attempt an analysis that gives up decides nothing.
func (r *Report) tryCompare(pkg *ssa.Package, sub, ref *ssa.Function, opt eqOpt, nilable []int, inlined map[*ssa.Function]bool, again bool) (cmp *comparison, e *Engine, calls map[*ssa.Function]int) {
	if again {
		defer func() {
			if recover() != nil {
				cmp, e, calls = nil, nil, nil
			}
		}()
	}
	return r.compare(pkg, sub, ref, opt, nilable, inlined)
}

// straightLine: a small function without loops.
func straightLine(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return len(f.Blocks) > 0 && n <= 80
}

// sameParams: the subject still takes and gives what the reference does, in the
// same order. Numbers may have changed their width and named strings their name.
func sameParams(sub, ref *ssa.Function) bool {
	if sub.Signature.Variadic() != ref.Signature.Variadic() || len(sub.Params) != len(ref.Params) || sub.Signature.Results().Len() != ref.Signature.Results().Len() {
		return false
	}
	alike := func(a, b types.Type) bool {
		if types.Identical(a, b) {
			return true
		}
		x, ok1 := a.Underlying().(*types.Basic)
		y, ok2 := b.Underlying().(*types.Basic)
		if ok1 && ok2 {
			const kinds = types.IsBoolean | types.IsInteger | types.IsFloat | types.IsString
			return x.Info()&kinds == y.Info()&kinds
		}
		return !ok1 && !ok2 && fmt.Sprintf("%T", a.Underlying()) == fmt.Sprintf("%T", b.Underlying())
	}
	for i := range sub.Params {
		if !alike(sub.Params[i].Type(), ref.Params[i].Type()) {
			return false
		}
	}
	for i := 0; i < ref.Signature.Results().Len(); i++ {
		if !alike(sub.Signature.Results().At(i).Type(), ref.Signature.Results().At(i).Type()) {
			return false
		}
	}
	// the same names in another order: the parameters were exchanged
	at := map[string]int{}
	for i, p := range ref.Params {
		at[p.Name()] = i + 1
	}
	for i, p := range sub.Params {
		if j := at[p.Name()]; p.Name() != "_" && j != 0 && j != i+1 && sub.Params[j-1].Name() != p.Name() {
			return false
		}
	}
	return true
}

// compare evaluates subject and reference once, looking into the functions in
// inlined. calls tells which functions the subject (1) and the reference (2)
// called without looking inside.
func (r *Report) compare(pkg *ssa.Package, sub, ref *ssa.Function, opt eqOpt, nilable []int, inlined map[*ssa.Function]bool) (*comparison, *Engine, map[*ssa.Function]int) {
	ex := map[int]bool{}
	for _, i := range nilable {
		ex[i] = true
	}
	// only receivers of the codec are taken to be there
	for i := range sub.Params {
		if i > 0 || sub.Signature.Recv() == nil || pkg == r.P.MPD {
			ex[i] = true
		}
	}
	e := newEngine(r.P)
	es, er := e.newEval(), e.newEval()
	special := map[*ssa.Function]callMode{}
	for _, n := range opt.opaque {
		if f := r.P.subject(pkg, n); f != nil {
			special[f] = modePure
		}
	}
	for _, n := range opt.events {
		if f := r.P.subject(pkg, n); f != nil {
			special[f] = modeEvent
		}
	}
	calls := map[*ssa.Function]int{}
	mode := func(who int) func(fn *ssa.Function) callMode {
		return func(fn *ssa.Function) callMode {
			m := modeDefault
			switch {
			case inlined[fn]:
			case special[fn] != modeDefault:
				m = special[fn]
			case pkg == r.P.MPD:
				m = r.P.codecOpaque(fn)
			case fn == sub:
				m = modeEvent
			default:
				m = r.P.xmlMode(fn)
			}
			if m != modeDefault {
				calls[fn] |= who
			}
			return m
		}
	}
	es.modes = mode(1)
	refMode := mode(2)
	er.modes = func(fn *ssa.Function) callMode {
		if fn == sub && pkg == r.P.MPD {
			return modePure
		}
		return refMode(fn)
	}
	// a reference calling a reference means the function, unless that is gone or looked into
	er.alias = func(fn *ssa.Function) *ssa.Function {
		if fn == ref {
			return sub
		}
		if isSpecFunc(fn) {
			if s := r.P.subject(pkg, strings.TrimPrefix(fn.Name(), specPrefix)); s != nil && sameParams(s, fn) && !inlined[s] && (special[s] != modeDefault || pkg == r.P.XML && r.P.xmlMode(s) != modeDefault) {
				return s
			}
		}
		return fn
	}
	es.assumeElems, er.assumeElems = true, true
	es.noBounds, er.noBounds = opt.noBounds, opt.noBounds
	pre := func(ev *Eval, ps []Value) BDD {
		g := nonNilParams(ex)(ev, ps)
		if opt.pre != nil {
			g = ev.B.And(g, opt.pre(ev, ps))
		}
		return g
	}
	os := es.Run(sub, pre)
	er.guide = os
	or := er.Run(ref, pre)
	cmp := compareOutcomes(os, or, !opt.strict)
	modesS, modesR, alias := es.modes, er.modes, er.alias
	peel := func(k int) (*comparison, bool) {
		return r.peeled(k, !opt.strict, sub, ref, func(e *Engine) *Eval {
			x := e.newEval()
			x.modes, x.assumeElems, x.noBounds = modesS, true, opt.noBounds
			return x
		}, func(e *Engine) *Eval {
			x := e.newEval()
			x.modes, x.alias, x.assumeElems, x.noBounds = modesR, alias, true, opt.noBounds
			return x
		}, pre)
	}
	// Where loops have no counterpart, what follows them cannot be compared;
	// what happens when none of them is reached still can.
	if cmp.structure != "" {
		if dom := e.B.Not(cmp.apart); e.beforeLoops(dom) && e.feasible(dom) {
			e1, e2 := e.newEval(), e.newEval()
			e1.modes, e1.assumeElems, e1.noBounds = es.modes, true, opt.noBounds
			e2.modes, e2.alias, e2.assumeElems, e2.noBounds = er.modes, er.alias, true, opt.noBounds
			within := func(ev *Eval, ps []Value) BDD { return ev.B.And(pre(ev, ps), dom) }
			e2.guide = e1.Run(sub, within)
			o2 := e2.Run(ref, within)
			if c := compareUnder(e2.guide, o2, !opt.strict, dom); len(c.diffs) > 0 {
				cmp = c
			}
		}
	}
	// interchangeable loop variables may be listed in another order
	if len(cmp.diffs) > 0 {
		for _, pm := range phiPerms(or) {
			ex := e.newEval()
			ex.modes, ex.alias, ex.assumeElems, ex.phiPerm, ex.noBounds, ex.guide = er.modes, er.alias, true, pm, opt.noBounds, os
			if c2 := compareOutcomes(os, ex.Run(ref, pre), !opt.strict); len(c2.diffs) == 0 {
				cmp = c2
				break
			}
		}
	}
	r.Units["ssa_instructions"] += es.steps
	cmp.peel = peel
	return cmp, e, calls
}

// guarded turns an analysis abort into an undecided (failed) obligation.
func (r *Report) guarded(rule, construct, where string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(string); !ok && os.Getenv("VERIF_DEBUG") != "" {
				panic(fmt.Sprintf("%v\n%s", x, debug.Stack()))
			}
			r.Undecided(rule, construct, where, "%v", x)
		}
	}()
	f()
}

// instances lists the instantiations of a generic function in the program.
func (p *Program) instances(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Origin() == fn {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// phiPerms lists the renumberings of loop variables that agree in loop, type
// and initial value.
func phiPerms(o *Outcome) []map[string][]int {
	size := map[string]int{}
	for _, rec := range o.recs {
		n := map[string]int{}
		for _, p := range rec.phis {
			if !p.induction && p.group != "" {
				n[p.group]++
			}
		}
		for g, k := range n {
			size[g] = k
		}
	}
	var groups []string
	for g, n := range size {
		if n > 1 && n <= 4 {
			groups = append(groups, g)
		}
	}
	sort.Strings(groups)
	out := []map[string][]int{{}}
	for _, g := range groups {
		var next []map[string][]int
		for _, m := range out {
			for _, p := range permutations(size[g]) {
				c := map[string][]int{}
				for k, v := range m {
					c[k] = v
				}
				c[g] = p
				next = append(next, c)
			}
		}
		out = next
		if len(out) > 48 {
			break
		}
	}
	if len(out) > 48 {
		out = out[:48]
	}
	if len(out) == 1 && len(out[0]) == 0 {
		return nil
	}
	return out
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := n - 1; i >= 0; i-- {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// poorer: whatever the subject works with, the reference works with too, and
// it does not call itself in a way the reference does not: a loop that only
// the reference has is not replaced by anything.
func (p *Program) poorer(sub, ref *ssa.Function) bool {
	a, b := p.features(sub, nil), p.features(ref, nil)
	for f := range a {
		if !b[f] {
			return false
		}
	}
	return true
}

// features: library functions, methods of interfaces, fields, maps and
// variables a function uses, itself or through others of the module. A
// reference calling a reference means the function, unless that is in inlined.
func (p *Program) features(fn *ssa.Function, inlined map[*ssa.Function]bool) map[string]bool {
	out := map[string]bool{}
	state := map[*ssa.Function]int{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		state[f] = 1
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					cc := x.Common()
					if cc.IsInvoke() {
						out["invoke "+cc.Method.Name()] = true
					} else if bi, ok := cc.Value.(*ssa.Builtin); ok {
						if bi.Name() != "len" && bi.Name() != "cap" {
							out[bi.Name()] = true
						}
					} else if g := cc.StaticCallee(); g == nil {
						out["dynamic call"] = true
					} else if p.InModule(g) && len(g.Blocks) > 0 {
						if isSpecFunc(g) && inlined != nil {
							if s := p.subject(g.Pkg, strings.TrimPrefix(g.Name(), specPrefix)); s != nil && !inlined[s] && len(s.Blocks) > 0 {
								g = s
							}
						}
						switch state[g] {
						case 0:
							visit(g)
						case 1:
							out["recursion"] = true
						}
					} else {
						n := g.String()
						if n == "(*bytes.Buffer).Len" || n == "(*bytes.Buffer).String" {
							n = "(*bytes.Buffer).Bytes"
						}
						out[n] = true
					}
				case *ssa.FieldAddr:
					if _, ok := x.X.(*ssa.Alloc); ok {
						continue
					}
					out[fmt.Sprintf("%s#%d", typeStr(x.X.Type()), x.Field)] = true
				case *ssa.Field:
					out[fmt.Sprintf("*%s#%d", typeStr(x.X.Type()), x.Field)] = true
				case *ssa.Lookup:
					out["lookup "+typeStr(x.X.Type())] = true
				case *ssa.MakeClosure, *ssa.Go, *ssa.Select, *ssa.Range:
					out[fmt.Sprintf("%T", in)] = true
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && !p.valueKnown(g) {
						out["global "+g.String()] = true
					}
				}
			}
		}
		state[f] = 2
	}
	visit(fn)
	return out
}

// valueKnown: a variable written only by its initialisation, whose value the
// analysis works with.
func (p *Program) valueKnown(g *ssa.Global) bool {
	if !p.initOnly(g) {
		return false
	}
	if _, ok := p.initConst(g); ok || p.initErrorsNew(g) || p.table(g) != nil {
		return true
	}
	if vs := p.globals().initVals[g]; len(vs) == 1 {
		if cv, ok := vs[0].(*ssa.Convert); ok {
			_, ok := cv.X.(*ssa.Const)
			return ok
		}
	}
	return false
}

package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Gated value numbering over SSA. A function is evaluated once, block by
// block in topological order; every SSA value becomes a guarded set of terms
// and every side effect one guarded entry of a log. Conditions are joined
// (never enumerated) as BDDs over canonical atoms. Loops are abstracted: their
// header values become symbols of an arbitrary iteration, memory they write is
// forgotten, and what one iteration does is recorded in a LoopRec.

type entryKind int

const (
	eStore entryKind = iota
	eAlloc
	eEvent
	eLoop
	eMapStore
)

type entry struct {
	kind  entryKind
	g     BDD
	addr  *Term
	val   Value
	name  string
	fn    *ssa.Function
	args  []Value
	res   Value
	havoc bool
	epoch *Term
	id    string
	scope string // "" everything shared; otherwise only state of that kind
	mods  *modSet
	loop  *LoopRec
	pos   token.Pos
	in    *ssa.Function
	loops []*LoopRec // enclosing loops
}

// LoopRec describes one loop: an arbitrary iteration of it.
type LoopRec struct {
	name    string
	fn      *ssa.Function
	header  *ssa.BasicBlock
	g0      BDD // reaches the loop
	iter    *Term
	phis    []*phiRec
	back    BDD // reaches the back edge
	exits   []loopExit
	classes map[string]bool
	exact   map[*Term]bool
	events  bool
	anyMem  bool             // some event may change anything
	mods    map[*modSet]bool // what the others may change
	parent  *LoopRec
	from    int // log range of the recorded iteration
	to      int
	ranges  *Term // ranged-over string/map
	scopes  map[string]bool
	hash    string   // of the conditions under which the header leaves it
	match   *LoopRec // loop of the guide it is named after
	keys    map[*phiRec]string
}

type phiRec struct {
	phi       *ssa.Phi
	init      Value
	next      Value
	term      *Term
	induction bool
	step      int64
	start     *Term
	group     string // phis of the same loop, type and initial value
	key       string // of its symbol, when not an induction variable
}

type loopExit struct {
	g        BDD
	from, to *ssa.BasicBlock
	ret      bool
}

type panicRec struct {
	g      BDD
	reason string
	pos    token.Pos
	in     *ssa.Function
	loop   *LoopRec
}

type Eval struct {
	*Engine
	log     []*entry
	panics  []panicRec
	stack   []*ssa.Function
	loops   []*LoopRec
	recs    []*LoopRec
	onCall  func(fn *ssa.Function, name string, args []Value, g BDD) // observer
	modes   func(fn *ssa.Function) callMode
	allocs  map[string]int
	escapeC map[*Term]int
	escapeG map[*Term][]escapeRec
	steps   int
	lastG   BDD

	alias       func(fn *ssa.Function) *ssa.Function // callee substitution
	phiPerm     map[string][]int                     // renumbering of interchangeable loop variables
	noBounds    bool                                 // index and slice bounds are taken to hold
	outside     BDD                                  // when they do not, for indices of strings
	assumeElems bool                                 // pointers held in slices are not nil

	guide      *Outcome // evaluation whose names are reused where the same thing happens
	allocMatch map[string]*Term
	allocUsed  map[*Term]bool
	at         int // loads see the log up to here; -1: all of it

	unroll int // rounds of every loop laid out one after the other
	beyond BDD // when a loop would go on after them
}

func (e *Engine) newEval() *Eval {
	return &Eval{Engine: e, allocs: map[string]int{}, allocMatch: map[string]*Term{}, allocUsed: map[*Term]bool{}, at: -1, outside: bFalse, beyond: bFalse}
}

func (ev *Eval) now() int {
	if ev.at >= 0 {
		return ev.at
	}
	return len(ev.log)
}

// asOf runs f with loads seeing the log only up to index i.
func (ev *Eval) asOf(i int, f func()) {
	old := ev.at
	ev.at = i
	defer func() { ev.at = old }()
	f()
}

// provisional: inside a loop that has no final name yet.
func (ev *Eval) provisional() bool {
	for _, l := range ev.loops {
		if strings.Contains(l.name, tmpPrefix) {
			return true
		}
	}
	return false
}

// Outcome is the summary of one function evaluation.
type Outcome struct {
	*Eval
	fn      *ssa.Function
	params  []Value
	ret     BDD // condition of returning normally
	results []Value
}

// paramValue makes an opaque value of type t named name.
func (ev *Eval) paramValue(name string, t types.Type) Value {
	return ev.opaqueValue(t, func(t types.Type, path string) *Term {
		return ev.mk("param", name+path, t)
	}, "")
}

func (ev *Eval) opaqueValue(t types.Type, leaf func(t types.Type, path string) *Term, path string) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := Value{typ: t, agg: []Value{}}
		for i := 0; i < u.NumFields(); i++ {
			v.agg = append(v.agg, ev.opaqueValue(u.Field(i).Type(), leaf, path+"."+u.Field(i).Name()))
		}
		return v
	case *types.Array:
		if u.Len() <= 16 {
			v := Value{typ: t, agg: []Value{}}
			for i := int64(0); i < u.Len(); i++ {
				v.agg = append(v.agg, ev.opaqueValue(u.Elem(), leaf, fmt.Sprintf("%s[%d]", path, i)))
			}
			return v
		}
	case *types.Tuple:
		v := Value{typ: t, agg: []Value{}}
		for i := 0; i < u.Len(); i++ {
			v.agg = append(v.agg, ev.opaqueValue(u.At(i).Type(), leaf, fmt.Sprintf("%s#%d", path, i)))
		}
		return v
	}
	lt := leaf(t, path)
	if isBoolType(t) && lt.op != "const" {
		return ev.boolean(bTrue, ev.truthT(lt))
	}
	return scalar(lt)
}

// Run evaluates fn on opaque parameters under the given precondition.
func (ev *Eval) Run(fn *ssa.Function, pre func(ev *Eval, ps []Value) BDD) *Outcome {
	o := &Outcome{Eval: ev, fn: fn}
	for i, p := range fn.Params {
		o.params = append(o.params, ev.paramValue(fmt.Sprintf("p%d", i), p.Type()))
	}
	g := bTrue
	if pre != nil {
		g = pre(ev, o.params)
	}
	o.ret, o.results = ev.inline(fn, o.params, nil, g, shortFn(fn), fn.Pos())
	return o
}

// ---- regions ---------------------------------------------------------------

type region struct {
	block *ssa.BasicBlock // single block, or header
	loop  bool
	sub   []*region // loop: header first
	set   map[*ssa.BasicBlock]bool
}

func regions(fn *ssa.Function) []*region {
	reach := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
	}
	dfs(fn.Blocks[0])
	return decompose(reach, fn.Blocks[0], false, fn)
}

func decompose(set map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, inLoop bool, fn *ssa.Function) []*region {
	index := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	var sccs [][]*ssa.BasicBlock
	n := 0
	var tarjan func(b *ssa.BasicBlock)
	tarjan = func(b *ssa.BasicBlock) {
		n++
		index[b], low[b] = n, n
		st = append(st, b)
		on[b] = true
		for _, s := range b.Succs {
			if !set[s] || inLoop && s == entry {
				continue
			}
			if index[s] == 0 {
				tarjan(s)
				if low[s] < low[b] {
					low[b] = low[s]
				}
			} else if on[s] && index[s] < low[b] {
				low[b] = index[s]
			}
		}
		if low[b] == index[b] {
			var c []*ssa.BasicBlock
			for {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				on[x] = false
				c = append(c, x)
				if x == b {
					break
				}
			}
			sccs = append(sccs, c)
		}
	}
	tarjan(entry)
	var out []*region
	for i := len(sccs) - 1; i >= 0; i-- {
		c := sccs[i]
		self := false
		cs := map[*ssa.BasicBlock]bool{}
		for _, b := range c {
			cs[b] = true
		}
		for _, s := range c[0].Succs {
			if s == c[0] && !(inLoop && s == entry) {
				self = true
			}
		}
		if len(c) == 1 && !self {
			out = append(out, &region{block: c[0]})
			continue
		}
		var head *ssa.BasicBlock
		for _, b := range c {
			for _, p := range b.Preds {
				if set[p] && !cs[p] || b == entry {
					if head != nil && head != b {
						panic("irreducible control flow in " + fn.String())
					}
					head = b
				}
			}
			if b == fn.Blocks[0] {
				head = b
			}
		}
		if head == nil {
			panic("loop without entry in " + fn.String())
		}
		out = append(out, &region{block: head, loop: true, set: cs, sub: decompose(cs, head, true, fn)})
	}
	return out
}

// ---- frames ----------------------------------------------------------------

type edge struct{ from, to *ssa.BasicBlock }

type frame struct {
	ev      *Eval
	fn      *ssa.Function
	ctx     string
	env     map[ssa.Value]Value
	edges   map[edge]BDD
	rets    []retRec
	defers  []deferRec
	g       BDD // current guard
	phis    map[*ssa.Phi]Value
	bind    []Value
	curLoop *LoopRec
}

type retRec struct {
	g    BDD
	vals []Value
}

type deferRec struct {
	g    BDD
	call *ssa.Defer
	args []Value
	fnv  Value
}

func (ev *Eval) inline(fn *ssa.Function, args, bind []Value, g BDD, ctx string, pos token.Pos) (BDD, []Value) {
	if len(ev.stack) > ev.MaxDepth {
		panic("call depth exceeded at " + fn.String())
	}
	ev.stack = append(ev.stack, fn)
	defer func() { ev.stack = ev.stack[:len(ev.stack)-1] }()
	f := &frame{ev: ev, fn: fn, ctx: ctx, env: map[ssa.Value]Value{}, edges: map[edge]BDD{}, phis: map[*ssa.Phi]Value{}, bind: bind}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = bind[i]
	}
	f.edges[edge{nil, fn.Blocks[0]}] = g
	f.runRegions(regions(fn))
	ret := bFalse
	nres := fn.Signature.Results().Len()
	alts := make([][]Value, nres)
	for _, r := range f.rets {
		ret = ev.B.Or(ret, r.g)
		for i, v := range r.vals {
			alts[i] = append(alts[i], ev.restrict(v, r.g))
		}
	}
	var res []Value
	for i := 0; i < nres; i++ {
		if len(alts[i]) == 0 {
			res = append(res, ev.zero(fn.Signature.Results().At(i).Type()))
			continue
		}
		res = append(res, ev.merge(alts[i]...))
	}
	return ret, res
}

func (f *frame) runRegions(rs []*region) {
	for _, r := range rs {
		if r.loop {
			f.runLoop(r)
		} else {
			f.runBlock(r.block, nil)
		}
	}
}

func (f *frame) inGuard(b *ssa.BasicBlock, only func(p *ssa.BasicBlock) bool) BDD {
	g := bFalse
	if b == f.fn.Blocks[0] && (only == nil || only(nil)) {
		g = f.edges[edge{nil, b}]
	}
	seen := map[*ssa.BasicBlock]bool{}
	for _, p := range b.Preds {
		if seen[p] || only != nil && !only(p) {
			continue
		}
		seen[p] = true
		g = f.ev.B.Or(g, f.edges[edge{p, b}])
	}
	return g
}

// phiValue joins the operands of phi coming over the accepted edges.
func (f *frame) phiValue(phi *ssa.Phi, only func(p *ssa.BasicBlock) bool) Value {
	var alts []Value
	seen := map[*ssa.BasicBlock]bool{}
	for i, p := range phi.Block().Preds {
		if only != nil && !only(p) {
			continue
		}
		eg := f.edges[edge{p, phi.Block()}]
		if eg == bFalse {
			continue
		}
		if seen[p] { // both branches of an If lead here: operands agree or were split
			continue
		}
		seen[p] = true
		alts = append(alts, f.ev.restrict(f.val(phi.Edges[i]), eg))
	}
	if len(alts) == 0 {
		return Value{}
	}
	return f.ev.merge(alts...)
}

func (f *frame) runBlock(b *ssa.BasicBlock, rec *LoopRec) {
	if rec == nil {
		f.g = f.inGuard(b, nil)
		if f.g == bFalse {
			return
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				f.env[phi] = f.phiValue(phi, nil)
			}
		}
	}
	for _, in := range b.Instrs {
		if f.g == bFalse {
			return
		}
		f.ev.steps++
		if f.ev.steps > f.ev.budget {
			panic("analysis budget exhausted in " + f.fn.String())
		}
		f.instr(in)
	}
}

const tmpPrefix = "~"

func (f *frame) runLoop(r *region) {
	ev := f.ev
	if f.inGuard(r.block, func(p *ssa.BasicBlock) bool { return p == nil || !r.set[p] }) == bFalse {
		return
	}
	if n, ok := f.tripCount(r); ok {
		f.unrollLoop(r, n)
		return
	}
	if ev.unroll > 0 {
		f.unrollLoop(r, ev.unroll)
		return
	}
	h := r.block
	entryEdge := func(p *ssa.BasicBlock) bool { return p == nil || !r.set[p] }
	backEdge := func(p *ssa.BasicBlock) bool { return p != nil && r.set[p] }
	g0 := f.inGuard(h, entryEdge)
	if g0 == bFalse {
		return
	}
	depth := len(ev.loops)
	rec := &LoopRec{fn: f.fn, header: h, g0: g0, classes: map[string]bool{}, exact: map[*Term]bool{}, scopes: map[string]bool{}, mods: map[*modSet]bool{}}
	if depth > 0 {
		rec.parent = ev.loops[depth-1]
	}
	for _, in := range h.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			rec.phis = append(rec.phis, &phiRec{phi: phi, init: f.phiValue(phi, entryEdge)})
		}
	}
	nlog, npan, nret, ndef, nrec := len(ev.log), len(ev.panics), len(f.rets), len(f.defers), len(ev.recs)
	iterate := func() {
		ev.log, ev.panics, f.rets, f.defers, ev.recs = ev.log[:nlog:nlog], ev.panics[:npan:npan], f.rets[:nret:nret], f.defers[:ndef:ndef], ev.recs[:nrec:nrec]
		rec.exits = nil
		for _, s := range r.sub {
			for k := range f.edges {
				if k.from == s.block || s.loop && s.set[k.from] {
					delete(f.edges, k)
				}
			}
		}
		le := &entry{kind: eLoop, g: g0, loop: rec, in: f.fn, name: rec.name, epoch: ev.Sym("m@"+rec.name, nil)}
		ev.log = append(ev.log, le)
		rec.from = len(ev.log)
		ev.loops = append(ev.loops, rec)
		f.g = g0
		for _, p := range rec.phis {
			f.env[p.phi] = f.loopPhi(rec, p)
		}
		for i, s := range r.sub {
			switch {
			case i == 0:
				f.runBlock(h, rec)
			case s.loop:
				f.runLoop(s)
			default:
				f.runBlock(s.block, nil)
			}
		}
		ev.loops = ev.loops[:len(ev.loops)-1]
		rec.to = len(ev.log)
		rec.back = f.inGuard(h, backEdge)
		for _, p := range rec.phis {
			p.next = f.phiValue(p.phi, backEdge)
		}
		for b := range r.set {
			for _, s := range b.Succs {
				if !r.set[s] {
					if g := f.edges[edge{b, s}]; g != bFalse {
						rec.exits = append(rec.exits, loopExit{g: g, from: b, to: s})
					}
				}
			}
		}
		for _, rr := range f.rets[nret:] {
			rec.exits = append(rec.exits, loopExit{g: rr.g, ret: true})
		}
		sort.Slice(rec.exits, func(i, j int) bool {
			a, b := rec.exits[i], rec.exits[j]
			if a.ret != b.ret {
				return b.ret
			}
			if a.ret {
				return a.g < b.g
			}
			if a.from.Index != b.from.Index {
				return a.from.Index < b.from.Index
			}
			return a.to.Index < b.to.Index
		})
	}
	collect := func() bool { // grow the havocked classes; true if stable
		stable := true
		for _, en := range ev.log[nlog+1:] {
			switch en.kind {
			case eStore, eMapStore:
				if ev.exactAddr(en.addr) {
					if !rec.exact[en.addr] {
						rec.exact[en.addr] = true
						stable = false
					}
				} else if c := ev.addrClass(en.addr, en.val); !rec.classes[c] {
					rec.classes[c] = true
					stable = false
				}
			case eEvent:
				if en.havoc && en.scope == "" && !rec.events {
					rec.events = true
					stable = false
				}
				if en.havoc && en.scope == "" && en.mods == nil && !rec.anyMem {
					rec.anyMem = true
					stable = false
				}
				if en.havoc && en.mods != nil && !rec.mods[en.mods] {
					rec.mods[en.mods] = true
					stable = false
				}
				if en.havoc && en.scope != "" && !rec.scopes[en.scope] {
					rec.scopes[en.scope] = true
					stable = false
				}
			case eLoop:
				for k := range en.loop.scopes {
					if !rec.scopes[k] {
						rec.scopes[k] = true
						stable = false
					}
				}
				if en.loop.anyMem && !rec.anyMem {
					rec.anyMem = true
					stable = false
				}
				for k := range en.loop.mods {
					if !rec.mods[k] {
						rec.mods[k] = true
						stable = false
					}
				}
				if en.loop.events && !rec.events {
					rec.events = true
					stable = false
				}
			}
		}
		return stable
	}
	rec.name = fmt.Sprintf("%sL%d", tmpPrefix, depth)
	rec.iter = ev.Sym("k!"+rec.name, types.Typ[types.Int])
	for n := 0; ; n++ {
		iterate()
		st := collect()
		// induction variables: next = header value + constant
		ind := false
		for _, p := range rec.phis {
			if p.induction || !isIntType(p.phi.Type()) || p.term == nil || len(p.next.parts) != 1 || len(p.init.parts) != 1 {
				continue
			}
			d := toLin(p.next.parts[0].t).add(toLin(p.term), -1)
			if len(d.c) == 0 && d.k != 0 {
				p.induction, p.step, p.start = true, d.k, p.init.parts[0].t
				ind = true
			}
		}
		if st && !ind {
			break
		}
		if n > 8 {
			panic("loop abstraction does not stabilise in " + f.fn.String())
		}
	}
	// Structural name, independent of where the loop stands: the conditions
	// under which its header leaves it, as far as they vary with the iteration.
	var ks []string
	own := func(t *Term) bool { return mentionsSym(t, rec.name, 0) }
	seenAtom := map[int]bool{}
	for _, x := range rec.exits {
		if x.ret || x.from != h {
			continue
		}
		for _, a := range ev.B.Support(x.g) {
			if t := ev.atomList[a]; !seenAtom[a] && own(t) {
				seenAtom[a] = true
				ks = append(ks, fmt.Sprintf("x%d", t.id))
			}
		}
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteString(strings.Join(ks, "|"))
	sum := sha1.Sum([]byte(sb.String()))
	hash := hex.EncodeToString(sum[:4])
	ord := 0
	for _, en := range ev.log[:nlog] {
		if en.kind == eLoop && strings.HasPrefix(en.loop.name, hash+".") {
			ord++
		}
	}
	rec.hash = hash
	rec.name = fmt.Sprintf("%s.%d", hash, ord)
	if depth > 0 {
		rec.name += "/" + rec.parent.name
	}
	if ev.guide != nil && !ev.provisional() {
		ev.log, ev.panics, f.rets, f.defers, ev.recs = ev.log[:nlog:nlog], ev.panics[:npan:npan], f.rets[:nret:nret], f.defers[:ndef:ndef], ev.recs[:nrec:nrec]
		ev.matchLoop(rec, hash)
	}
	rec.iter = ev.Sym("k!"+rec.name, types.Typ[types.Int])
	for n := 0; ; n++ {
		rec.classes, rec.exact, rec.scopes = map[string]bool{}, map[*Term]bool{}, map[string]bool{}
		for m := 0; ; m++ {
			iterate()
			if collect() {
				break
			}
			if m > 8 {
				panic("loop abstraction does not stabilise in " + f.fn.String())
			}
		}
		break
	}
	if ev.invariants(rec) { // once more, with the bounds known
		iterate()
	}
	ev.recs = append(ev.recs, rec)
	// Values flowing out of the loop are those of its last iteration; nothing to do.
	if len(ev.loops) == 0 {
		return
	}
}

// mentionsSym: t depends on a symbol of the named loop.
func mentionsSym(t *Term, name string, d int) bool {
	if d > 20 {
		return false
	}
	if t.op == "sym" && strings.Contains(t.aux, name) {
		return true
	}
	for _, a := range t.args {
		if mentionsSym(a, name, d+1) {
			return true
		}
	}
	return false
}

func (f *frame) loopPhi(rec *LoopRec, p *phiRec) Value {
	ev := f.ev
	if p.induction {
		l := toLin(p.start).add(linear{c: map[*Term]int64{rec.iter: 1}}, p.step)
		p.term = ev.fromLin(l, p.phi.Type())
		return one(rec.g0, p.term)
	}
	key := func(q *phiRec) string {
		var ids []string
		for _, x := range q.init.parts {
			ids = append(ids, fmt.Sprint(x.t.id))
		}
		sort.Strings(ids)
		return types.TypeString(q.phi.Type(), nil) + strings.Join(ids, ",")
	}
	i := 0
	for _, q := range rec.phis {
		if q == p {
			break
		}
		if !q.induction && key(q) == key(p) {
			i++
		}
	}
	h := sha1.Sum([]byte(key(p)))
	p.group = fmt.Sprintf("%p/%x", rec.header, h[:3])
	p.key = fmt.Sprintf("%s.%d", hex.EncodeToString(h[:3]), i)
	if k, ok := rec.keys[p]; ok {
		p.key = k
	}
	v := ev.opaqueValue(p.phi.Type(), func(t types.Type, path string) *Term {
		return ev.Sym(fmt.Sprintf("phi!%s.%s%s", rec.name, p.key, path), t)
	}, "")
	if !v.isAgg() && len(v.parts) == 1 {
		p.term = v.parts[0].t
	}
	return ev.restrict(v, rec.g0)
}

// ---- values ----------------------------------------------------------------

func (f *frame) val(v ssa.Value) Value {
	ev := f.ev
	switch v := v.(type) {
	case *ssa.Const:
		return ev.constant(v)
	case *ssa.Function:
		return scalar(ev.funcTerm(v))
	case *ssa.Global:
		t := ev.mk("global", globalName(v), v.Type())
		return scalar(t)
	case *ssa.Builtin:
		return scalar(ev.mk("builtin", v.Name(), nil))
	}
	if x, ok := f.env[v]; ok {
		return x
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		debug.PrintStack()
	}
	panic(fmt.Sprintf("value %s of %s not evaluated", v.Name(), f.fn))
}

func globalName(g *ssa.Global) string {
	s := g.String()
	s = strings.ReplaceAll(s, mpdPath, "mpd")
	return strings.ReplaceAll(s, xmlPath, "xml")
}

func (e *Engine) funcTerm(fn *ssa.Function) *Term {
	t := e.mk("func", fn.String(), fn.Type())
	t.fn = fn
	return t
}

func (e *Engine) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	return scalar(e.constTerm(c.Value, t))
}

func (e *Engine) constTerm(v constant.Value, t types.Type) *Term {
	switch {
	case isStringType(t):
		if v.Kind() == constant.String {
			return e.Str(constant.StringVal(v))
		}
	case isBoolType(t):
		return e.Bool(constant.BoolVal(v))
	case isIntType(t):
		if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
			return e.Int(i)
		}
		if u, ok := constant.Uint64Val(constant.ToInt(v)); ok {
			return e.Int(int64(u))
		}
	case isFloatType(t):
		return e.Float(v)
	}
	r := e.mk("const", "x:"+v.ExactString(), t)
	r.val = v
	return r
}

func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := Value{typ: t, agg: []Value{}}
		for i := 0; i < u.NumFields(); i++ {
			v.agg = append(v.agg, e.zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		if u.Len() <= 16 {
			v := Value{typ: t, agg: []Value{}}
			for i := int64(0); i < u.Len(); i++ {
				v.agg = append(v.agg, e.zero(u.Elem()))
			}
			return v
		}
		return scalar(e.mk("zeroarray", typeStr(t), t))
	case *types.Tuple:
		v := Value{typ: t, agg: []Value{}}
		for i := 0; i < u.Len(); i++ {
			v.agg = append(v.agg, e.zero(u.At(i).Type()))
		}
		return v
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return scalar(e.Str(""))
		case u.Info()&types.IsBoolean != 0:
			return scalar(e.Bool(false))
		case u.Info()&types.IsInteger != 0:
			return scalar(e.Int(0))
		case u.Info()&types.IsFloat != 0:
			return scalar(e.Float(constant.MakeInt64(0)))
		}
	}
	return scalar(e.Nil())
}

// ---- memory ----------------------------------------------------------------

func (ev *Eval) faddr(base *Term, st types.Type, i int) *Term {
	n := typeStr(types.Unalias(st))
	r := ev.mk("faddr", fmt.Sprintf("%s#%d", n, i), types.NewPointer(asStruct(st).Field(i).Type()), base)
	r.ctyp = st
	return r
}

func (ev *Eval) iaddr(base, idx *Term, elem types.Type) *Term {
	if base.op == "slice" && len(base.args) >= 2 {
		lo := base.args[1]
		s := ev.fromLin(toLin(lo).add(toLin(idx), 1), types.Typ[types.Int])
		return ev.iaddr(base.args[0], s, elem)
	}
	return ev.mk("iaddr", typeStr(elem), types.NewPointer(elem), base, idx)
}

func rootOf(a *Term) *Term {
	for a.op == "faddr" || a.op == "iaddr" || a.op == "slice" {
		a = a.args[0]
	}
	return a
}

func isFresh(t *Term) bool { return t.op == "alloc" }

func hasLoopSym(t *Term, depth int) bool {
	if depth > 30 {
		return true
	}
	if t.op == "sym" && (strings.HasPrefix(t.aux, "k!") || strings.HasPrefix(t.aux, "phi!")) || t.op == "loopmem" || t.op == "more" {
		return true
	}
	for _, a := range t.args {
		if hasLoopSym(a, depth+1) {
			return true
		}
	}
	return false
}

// exactAddr: the address is the same in every iteration.
func (ev *Eval) exactAddr(a *Term) bool { return !hasLoopSym(a, 0) }

// addrClass: the fields and elements on the way to a, innermost first, down to
// a local allocation or to a pointer from elsewhere.
func (ev *Eval) addrClass(a *Term, v Value) string {
	if a.op == "mapaddr" {
		return "m:"
	}
	if a.op != "faddr" && a.op != "iaddr" {
		if a.typ != nil {
			return "p:" + typeStr(a.typ)
		}
		return "p:?"
	}
	var sb strings.Builder
	for ; ; a = a.args[0] {
		switch a.op {
		case "faddr":
			sb.WriteString("f:" + a.aux + ";")
		case "iaddr":
			sb.WriteString("i:" + a.aux + ";")
		case "slice":
		case "alloc":
			return sb.String() + "local"
		default:
			return sb.String()
		}
	}
}

// classesMeet: addresses of the two classes may coincide.
func classesMeet(a, b string) bool {
	if a == b || a == "m:" || b == "m:" || a[:2] == "p:" || b[:2] == "p:" {
		return a == b
	}
	return strings.HasPrefix(a, b) || strings.HasPrefix(b, a)
}

func leafType(a *Term) types.Type {
	if a.typ == nil {
		return nil
	}
	if p, ok := a.typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// sameAddr is the condition under which two leaf addresses coincide.
func (ev *Eval) sameAddr(a, b *Term) BDD {
	if a == b {
		return bTrue
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra != rb && distinctTerms(ra, rb) {
		return bFalse
	}
	if a.op == "mapaddr" || b.op == "mapaddr" {
		if a.op != b.op {
			return bFalse
		}
		return ev.B.And(ev.eqTerms(a.args[0], b.args[0]), ev.eqTerms(a.args[1], b.args[1]))
	}
	if ra.op == "alloc" && a.op != b.op && ra == rb {
		if a.op == "faddr" && b.op == "faddr" || a.op == "alloc" || b.op == "alloc" {
			return bFalse
		}
	}
	if a.op == "faddr" && b.op == "faddr" {
		if a.aux != b.aux {
			return bFalse
		}
		return ev.sameBase(a.args[0], b.args[0])
	}
	if a.op == "iaddr" && b.op == "iaddr" {
		if a.aux != b.aux {
			return bFalse
		}
		return ev.B.And(ev.sameBase(a.args[0], b.args[0]), ev.eqTerms(a.args[1], b.args[1]))
	}
	la, lb := leafType(a), leafType(b)
	if la != nil && lb != nil && !types.Identical(la, lb) {
		return bFalse
	}
	// Field or element against a free pointer of the same type.
	if a.op == "faddr" || a.op == "iaddr" || b.op == "faddr" || b.op == "iaddr" {
		if ra.op == "alloc" || rb.op == "alloc" {
			return bFalse
		}
	}
	return ev.eqTerms(a, b)
}

func (ev *Eval) sameBase(a, b *Term) BDD {
	if a == b {
		return bTrue
	}
	if a.op == "faddr" || a.op == "iaddr" || b.op == "faddr" || b.op == "iaddr" {
		return ev.sameAddr(a, b)
	}
	return ev.eqTerms(a, b)
}

// localAt: memory rooted at r is private to the evaluation at log index i.
func (ev *Eval) localAt(r *Term, i int) bool {
	if r.op != "alloc" {
		return false
	}
	at, ok := ev.escapeC[r]
	return !ok || at > i
}

// copiesInto: the event is a copy into memory rooted at r.
func copiesInto(en *entry, r *Term) bool {
	if !strings.HasPrefix(en.scope, "elem:") || len(en.args) == 0 {
		return false
	}
	for _, p := range en.args[0].parts {
		if set := map[*Term]bool{}; p.t == r {
			return true
		} else if allocsIn(p.t, set, 0); set[r] {
			return true
		}
	}
	return false
}

// escapeRec: from log index at on, under g, memory is visible to code outside.
type escapeRec struct {
	at int
	g  BDD
}

// localUnder: as localAt, on the paths where g holds.
func (ev *Eval) localUnder(r *Term, i int, g BDD) bool {
	if ev.localAt(r, i) {
		return true
	}
	if r.op != "alloc" {
		return false
	}
	for _, x := range ev.escapeG[r] {
		if x.at <= i && ev.feasible(ev.B.And(x.g, g)) {
			return false
		}
	}
	return true
}

func allocsIn(t *Term, set map[*Term]bool, d int) {
	if d > 40 {
		return
	}
	if t.op == "alloc" {
		set[t] = true
	}
	for _, a := range t.args {
		allocsIn(a, set, d+1)
	}
}

func allocsInValue(v Value, set map[*Term]bool) {
	for _, p := range v.parts {
		allocsIn(p.t, set, 0)
	}
	for _, a := range v.agg {
		allocsInValue(a, set)
	}
}

// escape marks everything reachable from args (and from non-local memory) as
// visible to code outside from log index i on.
func (ev *Eval) escape(args []Value, i int, g BDD) {
	if ev.escapeC == nil {
		ev.escapeC = map[*Term]int{}
		ev.escapeG = map[*Term][]escapeRec{}
	}
	set := map[*Term]bool{}
	for _, a := range args {
		allocsInValue(a, set)
	}
	for changed := true; changed; {
		changed = false
		for _, en := range ev.log[:i] {
			if en.kind != eStore && en.kind != eMapStore {
				continue
			}
			r := rootOf(en.addr)
			if en.kind == eMapStore {
				r = en.addr.args[0]
			}
			_, esc := ev.escapeC[r]
			if r.op == "alloc" && !set[r] && !esc {
				continue
			}
			n := len(set)
			allocsInValue(en.val, set)
			if len(set) != n {
				changed = true
			}
		}
	}
	for a := range set {
		if at, ok := ev.escapeC[a]; !ok || at > i {
			ev.escapeC[a] = i
		}
		// what escapes in an earlier round of a loop is gone for the later ones
		eg := bTrue
		for _, en := range ev.log[:i] {
			if en.kind == eAlloc && en.addr == a && len(en.loops) >= len(ev.loops) {
				eg = g
			}
		}
		ev.escapeG[a] = append(ev.escapeG[a], escapeRec{i, eg})
	}
}

func (ev *Eval) store(g BDD, addr Value, v Value, t types.Type, in ssa.Instruction) {
	if st := asStruct(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			fa := ev.lift(g, func(ts []*Term) *Term { return ev.faddr(ts[0], t, i) }, addr)
			var fv Value
			if v.isAgg() && i < len(v.agg) {
				fv = v.agg[i]
			} else {
				fv = ev.lift(g, func(ts []*Term) *Term { return ev.mk("field", fmt.Sprint(i), st.Field(i).Type(), ts[0]) }, v)
			}
			ev.store(g, fa, fv, st.Field(i).Type(), in)
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok && v.isAgg() {
		for i := range v.agg {
			ea := ev.lift(g, func(ts []*Term) *Term { return ev.iaddr(ts[0], ev.Int(int64(i)), at.Elem()) }, addr)
			ev.store(g, ea, v.agg[i], at.Elem(), in)
		}
		return
	}
	for _, p := range addr.parts {
		sg := ev.B.And(g, p.g)
		if sg == bFalse {
			continue
		}
		ev.log = append(ev.log, &entry{kind: eStore, g: sg, addr: p.t, val: ev.restrict(v, sg), pos: in.Pos(), in: in.Parent(), loops: ev.curLoops()})
	}
}

func (ev *Eval) curLoops() []*LoopRec { return append([]*LoopRec(nil), ev.loops...) }

func (ev *Eval) load(g BDD, addr Value, t types.Type) Value {
	if st := asStruct(t); st != nil {
		v := Value{typ: t, agg: []Value{}}
		for i := 0; i < st.NumFields(); i++ {
			fa := ev.lift(g, func(ts []*Term) *Term { return ev.faddr(ts[0], t, i) }, addr)
			v.agg = append(v.agg, ev.load(g, fa, st.Field(i).Type()))
		}
		return v
	}
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 16 {
		v := Value{typ: t, agg: []Value{}}
		for i := int64(0); i < at.Len(); i++ {
			ea := ev.lift(g, func(ts []*Term) *Term { return ev.iaddr(ts[0], ev.Int(i), at.Elem()) }, addr)
			v.agg = append(v.agg, ev.load(g, ea, at.Elem()))
		}
		return v
	}
	var alts []Value
	for _, p := range addr.parts {
		if lg := ev.B.And(g, p.g); lg != bFalse {
			alts = append(alts, ev.loadLeaf(lg, p.t, t, ev.now()))
		}
	}
	if len(alts) == 0 {
		return Value{}
	}
	return ev.merge(alts...)
}

func (ev *Eval) loadLeaf(g BDD, a *Term, t types.Type, upto int) Value {
	if a.op == "global" {
		if v, ok := ev.globalConst(a, t); ok {
			return ev.restrict(v, g)
		}
	}
	root := rootOf(a)
	if root.op == "gconst" || root.op == "global" {
		if v, ok := ev.loadTable(g, a, t); ok {
			return v
		}
	}
	if root.op == "list" && a.op == "iaddr" && a.args[0] == root {
		if i, ok := a.args[1].constInt(); ok && i >= 0 && int(i) < len(root.args) {
			return one(g, root.args[i])
		}
	}
	rem := g
	var alts []Value
	opaque := func(c BDD, ep *Term) {
		lt := ev.mk("load", "", t, a, ep)
		if isBoolType(t) {
			alts = append(alts, ev.boolean(c, ev.truthT(lt)))
		} else {
			alts = append(alts, one(c, lt))
		}
	}
	for i := upto - 1; i >= 0 && rem != bFalse; i-- {
		en := ev.log[i]
		c := ev.B.And(rem, en.g)
		if c == bFalse {
			continue
		}
		switch en.kind {
		case eStore, eMapStore:
			m := ev.sameAddr(a, en.addr)
			c = ev.B.And(c, m)
			if c == bFalse {
				continue
			}
			v := ev.restrict(en.val, c)
			if v.isAgg() {
				continue
			}
			// stores to different places commute: the condition need not tell
			// that the later ones went elsewhere
			if d := ev.B.And(g, en.g, m); m != bTrue && d != c && !ev.feasible(ev.B.And(d, ev.B.Not(rem))) {
				v = ev.restrict(en.val, d)
			}
			alts = append(alts, v)
			rem = ev.B.And(rem, ev.B.Not(c))
		case eAlloc:
			if root != en.addr {
				continue
			}
			z := ev.zero(t)
			alts = append(alts, ev.restrict(z, c))
			rem = ev.B.And(rem, ev.B.Not(c))
		case eEvent:
			if !ev.touches(en, a) || ev.localUnder(root, i, c) && !copiesInto(en, root) {
				continue
			}
			if nilled := ev.B.And(c, ev.clearedBy(en, a)); nilled != bFalse {
				alts = append(alts, ev.restrict(ev.zero(t), nilled))
				rem = ev.B.And(rem, ev.B.Not(nilled))
				c = ev.B.And(c, ev.B.Not(nilled))
			}
			if c != bFalse {
				opaque(c, en.epoch)
				rem = ev.B.And(rem, ev.B.Not(c))
			}
		case eLoop:
			if !ev.loopTouches(en.loop, a, root, i) {
				continue
			}
			opaque(c, en.epoch)
			rem = ev.B.And(rem, ev.B.Not(c))
		}
	}
	if rem != bFalse {
		opaque(rem, ev.Sym("m0", nil))
	}
	return ev.merge(alts...)
}

// touches: the event may change what is stored at a.
func (ev *Eval) touches(en *entry, a *Term) bool {
	if !en.havoc {
		return false
	}
	if en.mods != nil {
		return en.mods.touches(ev.P, a)
	}
	if en.scope == "" {
		return true
	}
	if en.scope == "foreign" {
		return !ev.P.ownField(a)
	}
	return strings.HasPrefix(en.scope, "elem:") && a.op == "iaddr" && en.scope == "elem:"+a.aux
}

func (ev *Eval) loopTouches(l *LoopRec, a, root *Term, i int) bool {
	if (l.anyMem || l.scopes["foreign"] && !ev.P.ownField(a)) && !ev.localAt(root, i) {
		return true
	}
	if len(l.mods) > 0 && !ev.localAt(root, i) {
		for m := range l.mods {
			if m.touches(ev.P, a) {
				return true
			}
		}
	}
	if a.op == "iaddr" && l.scopes["elem:"+a.aux] {
		return true
	}
	for x := range l.exact {
		if ev.sameAddr(a, x) != bFalse {
			return true
		}
	}
	if len(l.classes) > 0 {
		c := ev.addrClass(a, Value{})
		for k := range l.classes {
			if classesMeet(c, k) {
				return true
			}
		}
		if a.op != "faddr" && a.op != "iaddr" && root.op != "alloc" {
			// a free pointer may point at a field or element of that type
			for k := range l.classes {
				if strings.HasPrefix(k, "p:") && k == "p:"+typeStr(a.typ) {
					return true
				}
			}
		}
	}
	return false
}

// globalConst: a global written only during package initialisation.
func (ev *Eval) globalConst(a *Term, t types.Type) (Value, bool) {
	g := ev.P.global(a.aux)
	if g == nil {
		return Value{}, false
	}
	if !ev.P.initOnly(g) {
		return Value{}, false
	}
	if c, ok := ev.P.initConst(g); ok {
		return ev.constant(c), true
	}
	if vs := ev.P.globals().initVals[g]; len(vs) == 1 {
		if cv, ok := vs[0].(*ssa.Convert); ok && isByteSlice(t) {
			if c, ok := cv.X.(*ssa.Const); ok && isStringType(c.Type()) {
				return scalar(ev.mk("bytes", "", t, ev.constant(c).parts[0].t)), true
			}
		}
	}
	r := ev.mk("gconst", a.aux, t)
	if ev.P.initErrorsNew(g) {
		r.nonnil = true
	}
	if ev.P.table(g) != nil {
		r.nonnil = true
	}
	if isBoolType(t) {
		return ev.boolean(bTrue, ev.truthT(r)), true
	}
	return scalar(r), true
}

func (ev *Eval) curLoop() *LoopRec {
	if n := len(ev.loops); n > 0 {
		return ev.loops[n-1]
	}
	return nil
}

// invariants records inductive bounds of the loop's variables: of a few
// candidate bounds, those implied on entry and preserved by every iteration.
func (ev *Eval) invariants(rec *LoopRec) bool {
	if strings.Contains(rec.name, tmpPrefix) {
		return false
	}
	e := ev.Engine
	type variable struct {
		term       *Term
		init, next Value
	}
	type cand struct {
		p *variable
		l linear // l <= 0, over p.term
	}
	var cs []cand
	// the number of rounds stays below what every further round asks for
	delete(e.facts, rec.iter)
	one := linear{c: map[*Term]int64{rec.iter: 1}}
	k := &variable{rec.iter, scalar(e.Int(0)), scalar(e.fromLin(one.add(linear{k: 1}, 1), types.Typ[types.Int]))}
	for _, i := range e.B.Support(rec.back) {
		a := e.atomList[i]
		if a.op != "le0" {
			continue
		}
		l := toLin(a.args[0])
		if l.c[rec.iter] == 0 {
			continue
		}
		if l.c[rec.iter] < 0 {
			l = l.scale(-1) // the negation: below what leaves the loop
		} else {
			l = l.add(linear{k: -1}, 1)
		}
		if n := l.add(one, -1); l.c[rec.iter] == 1 && len(n.c) == 1 && !mentionsSym(e.fromLin(n, types.Typ[types.Int]), rec.name, 0) && n.k == 0 {
			cs = append(cs, cand{k, l})
		}
	}
	for _, p := range rec.phis {
		if p.induction || p.term == nil || !isIntType(p.phi.Type()) || len(p.init.parts) == 0 || len(p.next.parts) == 0 {
			continue
		}
		delete(e.facts, p.term)
		t := linear{c: map[*Term]int64{p.term: 1}}
		p := &variable{p.term, p.init, p.next}
		if !nonNegative(p.term) {
			cs = append(cs, cand{p, t.scale(-1)})
		}
		for i, x := range p.init.parts {
			if l := toLin(x.t); i < 12 {
				cs = append(cs, cand{p, t.add(l, -1)}, cand{p, l.add(t, -1)})
			}
		}
	}
	holds := func(c cand, v Value, g BDD) bool {
		for _, x := range v.parts {
			l := linear{c: map[*Term]int64{}, k: c.l.k}
			for t, k := range c.l.c {
				if t == c.p.term {
					l = l.add(toLin(x.t), k)
				} else {
					l.c[t] += k
					if l.c[t] == 0 {
						delete(l.c, t)
					}
				}
			}
			bad := e.B.And(g, x.g, e.B.Not(e.le0(l)))
			if bad != bFalse && e.witness(bad) != nil {
				return false
			}
		}
		return true
	}
	var keep []cand
	for _, c := range cs {
		if holds(c, c.p.init, rec.g0) {
			keep = append(keep, c)
		}
	}
	for {
		for _, p := range rec.phis {
			delete(e.facts, p.term)
		}
		delete(e.facts, rec.iter)
		for _, c := range keep {
			e.facts[c.p.term] = append(e.facts[c.p.term], c.l)
		}
		var next []cand
		for _, c := range keep {
			if holds(c, c.p.next, rec.back) {
				next = append(next, c)
			}
		}
		done := len(next) == len(keep)
		keep = next
		if done {
			break
		}
	}
	if len(keep) > 0 {
		e.feasC = map[BDD]bool{}
	}
	return len(keep) > 0
}

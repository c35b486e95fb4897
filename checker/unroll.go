package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loop peeling. A loop is normally summarised by an arbitrary iteration, and
// two functions are comparable where their loops correspond. Where they do
// not, the runs in which every loop is left after a few rounds can still be
// summarised exactly, without looking at how the loops are written: the rounds
// are laid out one after the other and the runs that go on are left out.

// tripCount: how many rounds a loop takes at most, where it walks a stretch of
// fixed length.
func (f *frame) tripCount(r *region) (int, bool) {
	ev := f.ev
	h := r.block
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !r.set[h.Succs[0]] || r.set[h.Succs[1]] {
		return 0, false
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	outside := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return !ok || !r.set[in.Block()]
	}
	constVal := func(v Value) (int64, bool) {
		if v.isAgg() || len(v.parts) != 1 {
			return 0, false
		}
		return v.parts[0].t.constInt()
	}
	var bound int64
	switch v := c.Y.(type) {
	case *ssa.Call:
		b, isB := v.Call.Value.(*ssa.Builtin)
		if !isB || b.Name() != "len" {
			return 0, false
		}
		if !outside(v) {
			x := v.Call.Args[0]
			if u, isU := x.(*ssa.UnOp); isU && u.Op == token.MUL {
				g, isG := u.X.(*ssa.Global)
				if !isG {
					return 0, false
				}
				tb := ev.P.table(g)
				if tb == nil || tb.root == nil {
					return 0, false
				}
				bound = int64(tb.n)
				break
			}
			if !outside(x) {
				return 0, false
			}
			xv := f.val(x)
			if xv.isAgg() || len(xv.parts) != 1 {
				return 0, false
			}
			if bound, ok = ev.lenT(xv.parts[0].t, x.Type()).constInt(); !ok {
				return 0, false
			}
			break
		}
		if bound, ok = constVal(f.val(v)); !ok {
			return 0, false
		}
	default:
		if !outside(v) {
			return 0, false
		}
		if bound, ok = constVal(f.val(v)); !ok {
			return 0, false
		}
	}
	switch c.Op {
	case token.LSS, token.NEQ:
	case token.LEQ:
		bound++
	default:
		return 0, false
	}
	// the counter: a variable of the loop, or that plus one
	x := c.X
	var off int64
	if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == h {
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Int64() != 1 {
			return 0, false
		}
		x, off = b.X, 1
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != h || !isIntType(phi.Type()) {
		return 0, false
	}
	init, ok := constVal(f.phiValue(phi, func(p *ssa.BasicBlock) bool { return p == nil || !r.set[p] }))
	if !ok {
		return 0, false
	}
	for i, p := range h.Preds {
		if !r.set[p] {
			continue
		}
		s, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || s.Op != token.ADD || s.X != ssa.Value(phi) {
			return 0, false
		}
		if k, ok := s.Y.(*ssa.Const); !ok || k.Value == nil || k.Int64() != 1 {
			return 0, false
		}
	}
	n := bound - init - off
	if n < 0 {
		if c.Op == token.NEQ {
			return 0, false
		}
		n = 0
	}
	return int(n), n <= maxTrip
}

// maxTrip is the length up to which walking a fixed stretch is laid out.
const maxTrip = 24

// unrollLoop lays out the first rounds of a loop.
func (f *frame) unrollLoop(r *region, rounds int) {
	ev := f.ev
	h := r.block
	g := f.inGuard(h, func(p *ssa.BasicBlock) bool { return p == nil || !r.set[p] })
	if g == bFalse {
		return
	}
	backEdge := func(p *ssa.BasicBlock) bool { return p != nil && r.set[p] }
	var phis []*ssa.Phi
	cur := map[*ssa.Phi]Value{}
	for _, in := range h.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
			cur[phi] = f.phiValue(phi, func(p *ssa.BasicBlock) bool { return p == nil || !r.set[p] })
		}
	}
	var defs []ssa.Value
	for b := range r.set {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				defs = append(defs, v)
			}
		}
	}
	left := map[edge]BDD{}
	alts := map[ssa.Value][]Value{}
	ctx := f.ctx
	defer func() { f.ctx = ctx }()
	last := false
	for i := 0; g != bFalse; i++ {
		for k := range f.edges {
			if r.set[k.from] {
				delete(f.edges, k)
			}
		}
		for _, v := range defs {
			delete(f.env, v)
		}
		f.ctx = fmt.Sprintf("%s~%d", ctx, i)
		for _, phi := range phis {
			f.env[phi] = ev.restrict(cur[phi], g)
		}
		f.g = g
		last = i == rounds
		for j, s := range r.sub {
			switch {
			case j == 0:
				f.runBlock(h, &LoopRec{})
			case last:
			case s.loop:
				f.runLoop(s)
			default:
				f.runBlock(s.block, nil)
			}
		}
		out := bFalse
		back := bFalse
		for b := range r.set {
			done := map[*ssa.BasicBlock]bool{}
			for _, s := range b.Succs {
				if done[s] {
					continue
				}
				done[s] = true
				eg := f.edges[edge{b, s}]
				if eg == bFalse {
					continue
				}
				if r.set[s] {
					if last || s == h {
						back = ev.B.Or(back, eg)
					}
					continue
				}
				left[edge{b, s}] = ev.B.Or(left[edge{b, s}], eg)
				out = ev.B.Or(out, eg)
			}
		}
		if out != bFalse {
			for _, v := range defs {
				if x, ok := f.env[v]; ok {
					alts[v] = append(alts[v], ev.restrict(x, out))
				}
			}
		}
		if last {
			ev.beyond = ev.B.Or(ev.beyond, back)
			break
		}
		for _, phi := range phis {
			cur[phi] = f.phiValue(phi, backEdge)
		}
		g = back
		if g != bFalse && !ev.feasible(g) {
			g = bFalse
		}
	}
	for k := range f.edges {
		if r.set[k.from] {
			delete(f.edges, k)
		}
	}
	for k, eg := range left {
		f.edges[k] = eg
	}
	for _, v := range defs {
		delete(f.env, v)
		if len(alts[v]) > 0 {
			f.env[v] = ev.merge(alts[v]...)
		}
	}
}

// peeled compares the runs in which every loop takes at most k rounds; ok is
// false where nothing can be said.
func (r *Report) peeled(k int, lenient bool, sub, ref *ssa.Function, es, er func(e *Engine) *Eval, pre func(ev *Eval, ps []Value) BDD) (cmp *comparison, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				println("PEELED", sub.Name(), fmt.Sprint(x))
			}
			cmp, ok = nil, false
		}
	}()
	e := newEngine(r.P)
	e.budget = 600_000
	if d := time.Now().Add(20 * time.Second); d.Before(e.deadline) {
		e.deadline = d
	}
	a := es(e)
	a.unroll = k
	oa := a.Run(sub, pre)
	b := er(e)
	b.unroll, b.guide = k, oa
	ob := b.Run(ref, pre)
	r.Units["ssa_instructions"] += a.steps + b.steps
	dom := e.B.And(e.B.Not(a.beyond), e.B.Not(b.beyond))
	if !e.feasible(dom) {
		return nil, false
	}
	return compareUnder(oa, ob, lenient, dom), true
}

const maxPeel = 4

// sameMeans: the subject works with nothing the reference does not work with,
// and what it does without is not something that might stand for a loop: then
// a difference in runs of few rounds is one in behaviour, not one in terms.
func (p *Program) sameMeans(sub, ref *ssa.Function, inlined map[*ssa.Function]bool) bool {
	a, b := p.features(sub, nil), p.features(ref, inlined)
	for f := range a {
		if !b[f] {
			if os.Getenv("VERIF_DEBUG") != "" {
				println("MORE", f)
			}
			return false
		}
	}
	for f := range b {
		if !a[f] && !strings.Contains(f, "#") && !strings.HasPrefix(f, "global ") {
			if os.Getenv("VERIF_DEBUG") != "" {
				println("LESS", f)
			}
			return false
		}
	}
	return true
}

// snapshot tells which memory a content version stands for, and when.
type snapshot struct {
	ev   *Eval
	at   int
	root *Term
	elem types.Type
	g    BDD
}

// sameBytes: a and b are the content of a stretch of memory, which is the same
// element by element whenever g holds.
func sameBytes(oa, ob *Outcome, g BDD, a, b *Term, seen map[[2]*Term]bool) bool {
	e := oa.Engine
	n := len(a.args) - 1
	if n < 1 {
		return false
	}
	sa, sb := e.snaps[a.args[n]], e.snaps[b.args[n]]
	if sa == nil || sb == nil || sa.elem == nil || sb.elem == nil || !types.Identical(sa.elem, sb.elem) {
		return false
	}
	for i := 0; i < n; i++ {
		if ok, _ := same(oa, ob, g, a.args[i], b.args[i], seen); !ok {
			return false
		}
	}
	if n == 1 {
		return sharedSame(oa, ob, g, sa, sb, seen)
	}
	at := map[*Term]bool{}
	if !sa.indices(at) || !sb.indices(at) {
		return false
	}
	for x := range at {
		low := e.le0(toLin(a.args[0]).add(toLin(x), -1))
		end := toLin(x).add(toLin(a.args[1]), -1)
		end.k++
		c := e.B.And(g, low, e.le0(end))
		if c == bFalse || !e.feasible(c) {
			continue
		}
		va := sa.ev.loadLeaf(c, sa.ev.iaddr(sa.root, x, sa.elem), sa.elem, sa.at)
		vb := sb.ev.loadLeaf(c, sb.ev.iaddr(sb.root, x, sb.elem), sb.elem, sb.at)
		if ok, d := sameValue(oa, ob, c, va, vb, seen); !ok {
			if os.Getenv("VERIF_DEBUG") != "" {
				println("BYTES", x.String(), d)
			}
			return false
		}
	}
	return true
}

// sharedSame: memory that is not the evaluation's own was last left unknown by
// the same event, and holds the same values where it was written since.
func sharedSame(oa, ob *Outcome, g BDD, sa, sb *snapshot, seen map[[2]*Term]bool) bool {
	if sa.root.op == "alloc" || sb.root.op == "alloc" {
		return false
	}
	at := map[*Term]bool{}
	var last [2]Value
	for i, s := range []*snapshot{sa, sb} {
		for _, en := range s.ev.log[:s.at] {
			if en.kind != eStore || rootOf(en.addr).op == "alloc" {
				continue
			}
			if lt := leafType(en.addr); lt != nil && types.Identical(lt, s.elem) {
				at[en.addr] = true
			}
		}
		s.ev.asOf(s.at, func() { last[i] = s.ev.lastVersion(g, nil) })
	}
	if ok, _ := sameValue(oa, ob, g, last[0], last[1], seen); !ok {
		return false
	}
	for x := range at {
		va, vb := sa.ev.loadLeaf(g, x, sa.elem, sa.at), sb.ev.loadLeaf(g, x, sb.elem, sb.at)
		if ok, _ := sameValue(oa, ob, g, va, vb, seen); !ok {
			return false
		}
	}
	return true
}

// indices collects where the memory was written; false where that is not all
// that happened to it.
func (s *snapshot) indices(at map[*Term]bool) bool {
	for i, en := range s.ev.log[:s.at] {
		switch {
		case en.kind == eStore && rootOf(en.addr) == s.root:
			if en.addr.op != "iaddr" || en.addr.args[0] != s.root {
				return false
			}
			at[en.addr.args[1]] = true
		case (en.kind == eEvent && en.havoc || en.kind == eLoop) && (!s.ev.localAt(s.root, i) || copiesInto(en, s.root)):
			return false
		}
	}
	return true
}

// sameLetters: a and b are made of constants and stretches of local memory, and
// agree letter by letter whenever g holds. The second result tells whether that
// could be decided.
func sameLetters(oa, ob *Outcome, g BDD, a, b *Term, seen map[[2]*Term]bool) (same, ok bool) {
	e := oa.Engine
	la, ok1 := e.letters(g, a)
	lb, ok2 := e.letters(g, b)
	if !ok1 || !ok2 {
		return false, false
	}
	if len(la) != len(lb) {
		return false, true
	}
	for i := range la {
		if ok, _ := sameValue(oa, ob, g, la[i], lb[i], seen); !ok {
			return false, true
		}
	}
	return true, true
}

// letters takes a text apart.
func (e *Engine) letters(g BDD, t *Term) ([]Value, bool) {
	if s, ok := t.constStr(); ok {
		var out []Value
		for i := range len(s) {
			out = append(out, one(g, e.Int(int64(s[i]))))
		}
		return out, true
	}
	if t.op == "concat" {
		var out []Value
		for _, x := range t.args {
			l, ok := e.letters(g, x)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
		return out, true
	}
	if t.op != "str" || len(t.args) != 3 {
		return nil, false
	}
	s := e.snaps[t.args[2]]
	lo, ok1 := t.args[0].constInt()
	hi, ok2 := t.args[1].constInt()
	if s == nil || !ok1 || !ok2 || s.elem == nil || hi-lo > 256 || !s.indices(map[*Term]bool{}) {
		return nil, false
	}
	var out []Value
	for i := lo; i < hi; i++ {
		out = append(out, s.ev.loadLeaf(g, s.ev.iaddr(s.root, e.Int(i), s.elem), s.elem, s.at))
	}
	return out, true
}

const otherTextNote = "text put together differently: "

// otherText: one side is put together from pieces, the other read out of a
// buffer.
func otherText(a, b *Term) bool {
	pieces := func(t *Term) bool {
		if t.op != "concat" {
			return false
		}
		for _, x := range t.args {
			if x.op == "str" {
				return true
			}
		}
		return false
	}
	return (a.op == "str" || pieces(a)) && (b.op == "str" || pieces(b)) && a.op != b.op
}

// spells: when the bytes of local memory are those of a constant.
func (e *Engine) spells(a *Term, want string) (BDD, bool) {
	if len(a.args) != 3 {
		return bFalse, false
	}
	s := e.snaps[a.args[2]]
	lo, ok1 := a.args[0].constInt()
	hi, ok2 := a.args[1].constInt()
	if s == nil || !ok1 || !ok2 || s.elem == nil || !s.indices(map[*Term]bool{}) {
		return bFalse, false
	}
	if hi-lo != int64(len(want)) {
		return bFalse, true
	}
	eq := bTrue
	for i := range want {
		v := s.ev.loadLeaf(s.g, s.ev.iaddr(s.root, e.Int(lo+int64(i)), s.elem), s.elem, s.at)
		one := bFalse
		for _, p := range v.parts {
			one = e.B.Or(one, e.B.And(p.g, e.eqTerms(p.t, e.Int(int64(want[i])))))
		}
		eq = e.B.And(eq, one)
	}
	return eq, true
}

// beyondTheory: the difference hangs on divisions, of which the analysis knows
// too little.
func beyondTheory(d difference) bool {
	return strings.Contains(d.when, "quo:") || strings.Contains(d.when, "rem:") || strings.Contains(d.when, otherTextNote)
}

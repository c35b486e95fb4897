package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// difference describes how a subject departs from its reference.
type difference struct {
	what string
	when string
}

// same decides whether a (in oa) and b (in ob) denote equal values whenever g holds.
func same(oa, ob *Outcome, g BDD, a, b *Term, seen map[[2]*Term]bool) (bool, string) {
	e := oa.Engine
	if a == b && !refersToAlloc(a) || !e.feasible(g) {
		return true, ""
	}
	if a.op == "alloc" && b.op == "alloc" {
		k := [2]*Term{a, b}
		if seen[k] {
			return true, ""
		}
		seen[k] = true
		return sameObject(oa, ob, g, a, b, seen)
	}
	if n := len(a.args); len(e.snaps) > 0 && n > 1 && a.op == b.op && a.aux == b.aux && n == len(b.args) && e.snaps[a.args[n-1]] != nil && sameBytes(oa, ob, g, a, b, seen) {
		return true, ""
	}
	if otherText(a, b) {
		if eq, ok := sameLetters(oa, ob, g, a, b, seen); ok && eq {
			return true, ""
		} else if !ok {
			return false, fmt.Sprintf(otherTextNote+"%s instead of %s", a, b)
		}
	}
	if hasAlloc(a) || hasAlloc(b) {
		if a.op == b.op && a.aux == b.aux && len(a.args) == len(b.args) && a.op != "alloc" {
			for i := range a.args {
				if ok, d := same(oa, ob, g, a.args[i], b.args[i], seen); !ok {
					return false, d
				}
			}
			return true, ""
		}
	}
	ne := e.B.And(g, e.B.Not(e.eqTerms(a, b)))
	if w := e.witness(ne); ne != bFalse && w != nil {
		return false, fmt.Sprintf("%s instead of %s when %s", a, b, e.cubeStr(w))
	}
	return true, ""
}

// refersToAlloc: the value is a reference into memory of the evaluation, so
// equal names are not enough.
func refersToAlloc(t *Term) bool {
	switch t.op {
	case "alloc", "faddr", "iaddr", "slice", "iface", "list", "struct", "append", "closure":
		return hasAlloc(t)
	}
	return false
}

func hasAlloc(t *Term) bool {
	m := map[*Term]bool{}
	allocsIn(t, m, 0)
	return len(m) > 0
}

func sameObject(oa, ob *Outcome, g BDD, a, b *Term, seen map[[2]*Term]bool) (bool, string) {
	ta, tb := leafType(a), leafType(b)
	if ta == nil || tb == nil {
		// slices and maps built locally: compare stored contents by address
		return sameStores(oa, ob, g, a, b, seen)
	}
	va := oa.load(g, one(g, a), ta)
	vb := ob.load(g, one(g, b), tb)
	return sameValue(oa, ob, g, va, vb, seen)
}

func sameStores(oa, ob *Outcome, g BDD, a, b *Term, seen map[[2]*Term]bool) (bool, string) {
	addrs := map[string]bool{}
	collect := func(o *Outcome, r *Term) map[string]*Term {
		m := map[string]*Term{}
		for _, en := range o.log[:o.now()] {
			if en.kind == eStore && rootOf(en.addr) == r {
				k := strings.ReplaceAll(en.addr.String(), r.String(), "R")
				m[k] = en.addr
				addrs[k] = true
			}
		}
		return m
	}
	ma, mb := collect(oa, a), collect(ob, b)
	for k := range addrs {
		if ma[k] == nil || mb[k] == nil {
			return false, "different elements set: " + k
		}
		t := leafType(ma[k])
		ok, d := sameValue(oa, ob, g, oa.loadLeaf(g, ma[k], t, oa.now()), ob.loadLeaf(g, mb[k], t, ob.now()), seen)
		if !ok {
			return false, k + ": " + d
		}
	}
	return true, ""
}

func sameValue(oa, ob *Outcome, g BDD, a, b Value, seen map[[2]*Term]bool) (bool, string) {
	e := oa.Engine
	if a.isAgg() || b.isAgg() {
		if !a.isAgg() {
			a = oa.unbox(g, a, b.typ)
		}
		if !b.isAgg() {
			b = ob.unbox(g, b, a.typ)
		}
		if len(a.agg) != len(b.agg) {
			return false, "different shapes"
		}
		for i := range a.agg {
			if ok, d := sameValue(oa, ob, g, a.agg[i], b.agg[i], seen); !ok {
				name := fmt.Sprint(i)
				if a.typ != nil {
					if st := asStruct(a.typ); st != nil {
						name = st.Field(i).Name()
					}
				}
				return false, "." + name + ": " + d
			}
		}
		return true, ""
	}
	for _, p := range a.parts {
		for _, q := range b.parts {
			c := e.B.And(g, p.g, q.g)
			if c == bFalse {
				continue
			}
			if ok, d := same(oa, ob, c, p.t, q.t, seen); !ok {
				return false, d
			}
		}
	}
	return true, ""
}

// comparison is the verdict on one subject.
type comparison struct {
	peel  func(k int) (*comparison, bool)
	diffs []difference
	// structure: loops of the subject correspond to nothing in the reference
	// (or the other way round), so differences mean nothing.
	structure string
	// entered: a loop is reached under another condition or in another state
	entered bool
	apart   BDD  // when one of those is reached
	missing bool // all of them are loops of the reference, and the others agree round by round
}

func (c *comparison) add(what, when string) { c.diffs = append(c.diffs, difference{what, when}) }

// compareOutcomes decides whether the subject does what the reference does.
// Where the reference panics, anything goes. With lenient set, only whether an
// error is returned (and which sentinel) counts, and the other results matter
// only without one. ref was evaluated with sub as its guide.
func compareOutcomes(sub, ref *Outcome, lenient bool) *comparison {
	out := compareUnder(sub, ref, lenient, bTrue)
	if len(out.diffs) == 0 {
		return out
	}
	e := sub.Engine
	refPanic := ref.outside
	for _, p := range ref.panics {
		refPanic = e.B.Or(refPanic, p.g)
	}
	out.structure, out.apart, out.missing = unmatchedLoops(sub, ref, refPanic)
	for _, b := range ref.recs {
		if a := b.match; a != nil && !out.entered {
			ok := e.B.Not(refPanic)
			out.entered = e.feasible(e.B.And(ok, e.B.Xor(a.g0, b.g0)))
			if !out.entered {
				same, _ := sameEntryMemory(sub, ref, a, b, e.B.And(a.g0, b.g0, ok))
				out.entered = !same
			}
		}
	}
	return out
}

func compareUnder(sub, ref *Outcome, lenient bool, dom BDD) *comparison {
	e := sub.Engine
	out := &comparison{}
	refPanic, subPanic := ref.outside, bFalse
	for _, p := range ref.panics {
		refPanic = e.B.Or(refPanic, p.g)
	}
	for _, p := range sub.panics {
		subPanic = e.B.Or(subPanic, p.g)
		c := e.B.And(p.g, ref.ret)
		if p.loop != nil {
			c = e.B.And(p.g, e.B.Not(refPanic))
		}
		c = e.B.And(c, dom)
		if w := e.witness(c); c != bFalse && w != nil {
			out.add("panics ("+p.reason+") at "+sub.P.Pos(p.pos), e.cubeStr(w))
		}
	}
	g := e.B.And(sub.ret, ref.ret, dom, e.B.Not(ref.outside))
	if w := e.witness(e.B.And(ref.ret, e.B.Not(sub.ret), e.B.Not(subPanic), e.B.Not(ref.outside), dom)); w != nil && len(sub.recs) == 0 {
		out.add("does not return", e.cubeStr(w))
	}
	seen := map[[2]*Term]bool{}
	okG := g
	n := len(ref.results)
	if sig := ref.fn.Signature.Results(); lenient && n > 0 && isErrorType(sig.At(n-1).Type()) && len(sub.results) == n {
		n--
		okG = bFalse
		for _, q := range ref.results[n].parts {
			rn := e.eqTerms(q.t, e.Nil())
			okG = e.B.Or(okG, e.B.And(g, q.g, rn))
			for _, p := range sub.results[n].parts {
				c := e.B.And(g, p.g, q.g)
				if c == bFalse {
					continue
				}
				pn := e.eqTerms(p.t, e.Nil())
				diff := e.B.And(c, e.B.Xor(pn, rn))
				if w := e.witness(diff); diff != bFalse && w != nil {
					out.add("error result", fmt.Sprintf("%s instead of %s when %s", p.t, q.t, e.cubeStr(w)))
				} else if p.t.op == "gconst" && q.t.op == "gconst" && p.t != q.t {
					if w := e.witness(c); w != nil {
						out.add("error result", fmt.Sprintf("%s instead of %s when %s", p.t, q.t, e.cubeStr(w)))
					}
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if i >= len(sub.results) {
			out.add("missing result", "")
			continue
		}
		if ok, d := sameValue(sub, ref, okG, sub.results[i], ref.results[i], seen); !ok {
			out.add(fmt.Sprintf("result %d", i), d)
		}
	}
	// final memory of everything that existed before
	out.diffs = append(out.diffs, compareStores(sub, ref, g, nil, nil)...)
	ok := e.B.And(e.B.Not(refPanic), e.B.Not(subPanic), dom)
	out.diffs = append(out.diffs, compareEffects(sub, ref, ok)...)
	out.diffs = append(out.diffs, compareLoops(sub, ref, ok)...)
	return out
}

// compareStores compares what was written: to memory that existed before, at
// the end of the function (a == nil) or of one iteration of a loop.
func compareStores(sub, ref *Outcome, g BDD, a, b *LoopRec) []difference {
	e := sub.Engine
	gs := map[*Term]BDD{}
	collect := func(o *Outcome, l *LoopRec) int {
		from, to := 0, len(o.log)
		if l != nil {
			from, to = l.from, l.to
		}
		for _, en := range o.log[from:to] {
			if en.kind != eStore {
				continue
			}
			if r := rootOf(en.addr); r.op == "alloc" && (l == nil || !ref.allocUsed[r]) {
				continue
			}
			gs[en.addr] = e.B.Or(gs[en.addr], en.g)
		}
		return to
	}
	i, j := collect(sub, a), collect(ref, b)
	var as []*Term
	for x := range gs {
		as = append(as, x)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	what := "final value of "
	if a != nil {
		what = "value after an iteration in " + shortFn(a.fn) + " of "
	}
	var out []difference
	sub.asOf(i, func() {
		ref.asOf(j, func() {
			for _, x := range as {
				t := leafType(x)
				if t == nil {
					continue
				}
				c := e.B.And(g, gs[x]) // only where the address itself is meaningful
				if r := rootOf(x); r.op == "alloc" {
					c = e.B.And(c, sub.allocated(r), ref.allocated(r))
				}
				if c == bFalse {
					continue
				}
				va, vb := sub.loadLeaf(c, x, t, i), ref.loadLeaf(c, x, t, j)
				if ok, d := sameValue(sub, ref, c, va, vb, map[[2]*Term]bool{}); !ok {
					out = append(out, difference{what + x.String(), d})
				}
			}
		})
	})
	return out
}

// compareEffects: every call with effects of one side is one of the other.
func compareEffects(sub, ref *Outcome, ok BDD) []difference {
	e := sub.Engine
	covered := map[string]BDD{}
	for _, en := range ref.log {
		if en.kind == eEvent {
			covered[en.id] = e.B.Or(covered[en.id], en.g)
		}
	}
	known := func(o *Outcome, en *entry) bool {
		for _, l := range en.loops {
			if o == ref && l.match == nil || o == sub && !ref.matched(l) {
				return false
			}
		}
		return true
	}
	type open struct {
		i int
		g BDD
	}
	var extra []open
	for i, en := range sub.log {
		if en.kind == eEvent && known(sub, en) {
			if c := e.B.And(en.g, ok, e.B.Not(covered[en.id])); c != bFalse && e.feasible(c) {
				extra = append(extra, open{i, c})
			}
		}
	}
	var out []difference
	for j, en := range ref.log {
		if en.kind != eEvent || !strings.HasPrefix(en.id, "ref:") || !known(ref, en) {
			continue
		}
		c := e.B.And(en.g, ok)
		w := e.witness(c)
		if c == bFalse || w == nil {
			continue
		}
		var cur *LoopRec
		if l := innermost(en); l != nil {
			cur = l.match
		}
		d := difference{"missing call " + en.name, e.cubeStr(w)}
		best := ""
		for _, x := range extra {
			s := sub.log[x.i]
			g := e.B.And(x.g, c)
			if innermost(s) != cur || g == bFalse || !e.feasible(g) {
				continue
			}
			if s.name != en.name || len(s.args) != len(en.args) {
				if best == "" {
					best = fmt.Sprintf("calls %s at %s instead of %s", s.name, sub.P.Pos(s.pos), en.name)
				}
				continue
			}
			_, why := ref.sameCall(g, x.i, en.args, j)
			best = fmt.Sprintf("call %s at %s: %s", s.name, sub.P.Pos(s.pos), why)
			break
		}
		if best != "" {
			d = difference{"effects", best}
		}
		return append(out, d) // what follows is a consequence
	}
	for _, x := range extra {
		return append(out, difference{"additional call " + sub.log[x.i].name + " at " + sub.P.Pos(sub.log[x.i].pos), e.cubeStr(e.witness(x.g))})
	}
	// map updates
	for _, o := range []*Outcome{sub, ref} {
		p := ref
		if o == ref {
			p = sub
		}
		for _, en := range o.log {
			if en.kind != eMapStore || en.addr.args[0].op == "alloc" || !known(o, en) {
				continue
			}
			rem := e.B.And(en.g, ok)
			for _, x := range p.log {
				if x.kind != eMapStore || x.name != en.name {
					continue
				}
				c := e.B.And(rem, x.g, e.eqTerms(en.addr.args[0], x.addr.args[0]), e.eqTerms(en.addr.args[1], x.addr.args[1]))
				if c == bFalse {
					continue
				}
				a, b := en.val, x.val
				if o == ref {
					a, b = b, a
				}
				if same, _ := sameValue(sub, ref, c, a, b, map[[2]*Term]bool{}); same {
					rem = e.B.And(rem, e.B.Not(c))
				}
			}
			if w := e.witness(rem); rem != bFalse && w != nil {
				return append(out, difference{"map entry " + en.addr.String() + " differs at " + sub.P.Pos(en.pos), e.cubeStr(w)})
			}
		}
	}
	return out
}

func (o *Eval) matched(l *LoopRec) bool {
	for _, r := range o.recs {
		if r.match == l {
			return true
		}
	}
	return false
}

// unmatchedLoops says which loops have no counterpart, or one that carries
// other variables from one iteration to the next, and when one is reached.
func unmatchedLoops(sub, ref *Outcome, refPanic BDD) (string, BDD, bool) {
	e := sub.Engine
	ok := e.B.Not(refPanic)
	ns, nr, nv := 0, 0, 0
	fixed := false
	what := ""
	apart := bFalse
	reach := func(l *LoopRec) {
		for l.parent != nil {
			l = l.parent
		}
		apart = e.B.Or(apart, l.g0)
	}
	at := func(l *LoopRec) string { return shortFn(l.fn) + " " + sub.P.Pos(l.header.Instrs[0].Pos()) }
	for _, a := range sub.recs {
		if !ref.matched(a) && !a.removable() && e.feasible(e.B.And(a.g0, ok)) {
			ns++
			what = at(a)
			reach(a)
		}
	}
	for _, b := range ref.recs {
		if !e.feasible(e.B.And(b.g0, ok)) {
			continue
		}
		switch {
		case b.match == nil && !b.removable():
			nr++
			fixed = fixed || constBound(b.header)
			reach(b)
			if what == "" {
				what = "a loop of the reference is missing"
			}
		case b.match != nil && otherVariables(b.match, b):
			nv++
			reach(b)
			reach(b.match)
			if what == "" {
				what = at(b.match)
			}
		case b.match != nil && rotated(sub, ref, b.match, b, ok):
			nv++
			reach(b)
			reach(b.match)
			if what == "" {
				what = at(b.match)
			}
		}
	}
	if ns+nr+nv > 0 {
		missing := ns+nv == 0 && !fixed && len(compareLoops(sub, ref, ok)) == 0
		return fmt.Sprintf("%d loops without counterpart in the reference, %d missing, %d with other variables (%s)", ns, nr, nv, what), apart, missing
	}
	return "", bFalse, false
}

// constBound: the loop is left after a fixed number of rounds, so it may also
// be written out.
func constBound(h *ssa.BasicBlock) bool {
	f, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := f.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{c.X, c.Y} {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && isIntType(k.Type()) && (k.Int64() > 1 || k.Int64() < -1) {
			return true
		}
	}
	return false
}

// otherVariables: some variable of one loop has no counterpart in the other,
// and not because it starts with another value.
func otherVariables(a, b *LoopRec) bool {
	keyed := map[string]bool{}
	own := false
	n := map[string]int{}
	for _, q := range b.phis {
		n[typeStr(q.phi.Type())]--
		if !q.induction {
			keyed[q.key] = true
			own = own || strings.HasPrefix(b.keys[q], "own")
		}
	}
	for _, p := range a.phis {
		n[typeStr(p.phi.Type())]++
		own = own || !p.induction && !keyed[p.key]
	}
	if !own {
		return false
	}
	for _, k := range n {
		if k != 0 {
			return true
		}
	}
	return false
}

// rotated: memory the loop works on is in another state on entry and also at
// the end of an iteration, as when a step is moved from the end of the body to
// its beginning.
func rotated(sub, ref *Outcome, a, b *LoopRec, ok BDD) bool {
	e := sub.Engine
	g := e.B.And(a.g0, b.g0, ok)
	for _, q := range b.phis {
		if strings.HasPrefix(b.keys[q], "own") {
			return false // starts with other values: something differs before
		}
	}
	if same, _ := sameEntryMemory(sub, ref, a, b, g); same {
		return false
	}
	if d := e.B.And(g, e.B.Xor(a.back, b.back)); d != bFalse && e.witness(d) != nil {
		return true
	}
	return len(compareStores(sub, ref, e.B.And(g, a.back, b.back), a, b)) > 0
}

// sameEntryMemory: what either loop touches is in the same state on entry.
func sameEntryMemory(sub, ref *Outcome, a, b *LoopRec, g BDD) (same bool, d string) {
	sub.asOf(a.from-1, func() {
		ref.asOf(b.from-1, func() {
			same, d = ref.sameMemory(g, func(x *Term) bool {
				r := rootOf(x)
				return sub.loopTouches(a, x, r, a.from-1) || ref.loopTouches(b, x, r, b.from-1)
			})
		})
	})
	return
}

// compareLoops compares how matched loops are entered, what one iteration
// leaves behind and when there is another one.
func compareLoops(sub, ref *Outcome, ok BDD) []difference {
	e := sub.Engine
	var out []difference
	for _, b := range ref.recs {
		a := b.match
		if a == nil {
			continue
		}
		g := e.B.And(a.g0, b.g0, ok)
		in := "in " + shortFn(a.fn) + " " + sub.P.Pos(a.header.Instrs[0].Pos())
		if same, d := sameEntryMemory(sub, ref, a, b, g); !same {
			out = append(out, difference{"state on entry to the loop " + in, d})
		}
		if w := e.witness(e.B.And(g, e.B.Xor(a.back, b.back))); w != nil {
			out = append(out, difference{"loop " + in + " continues differently", e.cubeStr(w)})
		}
		gb := e.B.And(g, a.back, b.back)
		pb := map[string]*phiRec{}
		for _, p := range a.phis {
			if !p.induction {
				pb[p.key] = p
			}
		}
		for _, q := range b.phis {
			p := pb[q.key]
			if q.induction || p == nil {
				continue // carries nothing the subject knows; its uses show up elsewhere
			}
			if same, d := sameValue(sub, ref, gb, p.next, q.next, map[[2]*Term]bool{}); !same {
				out = append(out, difference{"value carried to the next iteration " + in, d})
			}
		}
		out = append(out, compareStores(sub, ref, gb, a, b)...)
	}
	return out
}

// removable: the loop has no effect and is left through one exit.
func (l *LoopRec) removable() bool {
	if len(l.classes)+len(l.exact) > 0 || l.events || len(l.exits) != 1 {
		return false
	}
	for _, p := range l.phis {
		if !p.induction {
			return false
		}
	}
	return true
}

// describeOutcome prints a summary, for the dump command.
func (o *Outcome) describe() string {
	var sb strings.Builder
	e := o.Engine
	fmt.Fprintf(&sb, "== %s\n  returns when %s\n", shortFn(o.fn), e.guardStr(o.ret))
	var show func(ind string, v Value)
	show = func(ind string, v Value) {
		for _, p := range v.parts {
			fmt.Fprintf(&sb, "%s%s\n%s    when %s\n", ind, p.t, ind, e.guardStr(p.g))
		}
		for i, a := range v.agg {
			fmt.Fprintf(&sb, "%s.%d:\n", ind, i)
			show(ind+"  ", a)
		}
	}
	for i, r := range o.results {
		fmt.Fprintf(&sb, "  result %d:\n", i)
		show("    ", r)
	}
	for _, p := range o.panics {
		fmt.Fprintf(&sb, "  panic %s at %s when %s\n", p.reason, o.P.Pos(p.pos), e.guardStr(p.g))
	}
	for i, en := range o.log {
		ls := ""
		for _, l := range en.loops {
			ls += " in " + l.name
		}
		switch en.kind {
		case eStore, eMapStore:
			fmt.Fprintf(&sb, "  [%d]%s store %s when %s\n", i, ls, en.addr, e.guardStr(en.g))
			show("      ", en.val)
		case eEvent:
			fmt.Fprintf(&sb, "  [%d]%s event %s when %s\n", i, ls, en.name, e.guardStr(en.g))
			for _, a := range en.args {
				show("      ", a)
			}
		case eLoop:
			fmt.Fprintf(&sb, "  [%d]%s loop %s classes=%v exact=%d events=%v\n", i, ls, en.loop.name, en.loop.classes, len(en.loop.exact), en.loop.events)
			for _, p := range en.loop.phis {
				fmt.Fprintf(&sb, "      phi %s induction=%v\n", p.phi.Comment, p.induction)
				show("        init ", p.init)
				show("        next ", p.next)
			}
			for _, x := range en.loop.exits {
				fmt.Fprintf(&sb, "      exit ret=%v when %s\n", x.ret, e.guardStr(x.g))
			}
		}
	}
	return sb.String()
}

var _ *ssa.Function

// allocated: when the evaluation has made the object.
func (ev *Eval) allocated(r *Term) BDD {
	g, seen := bFalse, false
	for _, en := range ev.log {
		if en.kind == eAlloc && en.addr == r {
			g, seen = ev.B.Or(g, en.g), true
		}
	}
	if !seen {
		return bTrue
	}
	return g
}

package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Guided naming. What an evaluation cannot see into - results of opaque calls,
// the state at a loop header, fresh objects - is named by symbols. When two
// functions are compared, the second evaluation reuses the first one's symbol
// wherever it has established that the same call happens in the same state,
// or that a loop is entered in the same way; equal states then have equal names.

type eventMatch struct {
	g  BDD
	id string
}

// matchEvent finds the events of the guide that are this call: same callee,
// equal arguments, equal memory and the same effects before.
func (ev *Eval) matchEvent(g BDD, name string, args []Value) []eventMatch {
	gd := ev.guide
	var out []eventMatch
	rem := g
	var want *LoopRec
	if l := ev.curLoop(); l != nil {
		if l.match == nil {
			return nil
		}
		want = l.match
	}
	for i, s := range gd.log {
		if s.kind != eEvent || s.name != name || len(s.args) != len(args) || innermost(s) != want {
			continue
		}
		c := ev.B.And(rem, s.g)
		if c == bFalse || !ev.feasible(c) {
			continue
		}
		if ok, _ := ev.sameCall(c, i, args, len(ev.log)); !ok {
			continue
		}
		out = append(out, eventMatch{c, s.id})
		rem = ev.B.And(rem, ev.B.Not(c))
		if rem == bFalse {
			break
		}
	}
	return out
}

func innermost(en *entry) *LoopRec {
	if n := len(en.loops); n > 0 {
		return en.loops[n-1]
	}
	return nil
}

// sameCall: under g, the guide's event i is a call with these arguments in
// the state this evaluation has at log index at.
func (ev *Eval) sameCall(g BDD, i int, args []Value, at int) (bool, string) {
	gd := ev.guide
	ok, why := true, ""
	gd.asOf(i, func() {
		ev.asOf(at, func() {
			seen := map[[2]*Term]bool{}
			for k := range args {
				if ok, why = sameValue(gd, ev.outcome(), g, gd.log[i].args[k], args[k], seen); !ok {
					why = fmt.Sprintf("argument %d: %s", k, why)
					return
				}
			}
			if elem, builtin := strings.CutPrefix(gd.log[i].scope, "elem:"); builtin {
				// copy looks at nothing but elements
				ok, why = ev.sameMemory(g, func(a *Term) bool {
					for ; a.op == "faddr" || a.op == "iaddr"; a = a.args[0] {
						if a.op == "iaddr" && a.aux == elem {
							return true
						}
					}
					lt := leafType(a)
					return a.op != "alloc" && lt != nil && typeStr(lt) == elem
				})
				return
			}
			ok, why = ev.sameState(g)
		})
	})
	return ok, why
}

func (ev *Eval) outcome() *Outcome { return &Outcome{Eval: ev} }

// sameState compares the memory both evaluations see at their current index.
func (ev *Eval) sameState(g BDD) (bool, string) {
	gd := ev.guide
	va, vb := gd.lastVersion(g, nil), ev.lastVersion(g, nil)
	for _, p := range va.parts {
		for _, q := range vb.parts {
			if p.t != q.t && ev.feasible(ev.B.And(g, p.g, q.g)) {
				return false, "other effects before (" + p.t.aux + ", " + q.t.aux + ")"
			}
		}
	}
	return ev.sameMemory(g, func(a *Term) bool {
		r := rootOf(a)
		return r.op != "alloc" || !gd.localAt(r, gd.now()) || !ev.localAt(r, ev.now())
	})
}

func (ev *Eval) sameMemory(g BDD, want func(a *Term) bool) (bool, string) {
	gd := ev.guide
	for _, a := range ev.storedAddrs() {
		if !want(a.a) {
			continue
		}
		t := leafType(a.a)
		if t == nil {
			continue
		}
		c := ev.B.And(g, a.g)
		if c == bFalse {
			continue
		}
		x, y := gd.loadLeaf(c, a.a, t, gd.now()), ev.loadLeaf(c, a.a, t, ev.now())
		if ok, d := sameValue(gd, ev.outcome(), c, x, y, map[[2]*Term]bool{}); !ok {
			return false, a.a.String() + ": " + d
		}
	}
	return true, ""
}

type addrUnder struct {
	a *Term
	g BDD
}

// storedAddrs lists the addresses outside private memory that either
// evaluation has written so far, and when.
func (ev *Eval) storedAddrs() []addrUnder {
	gs := map[*Term]BDD{}
	for _, e := range []*Eval{ev.guide.Eval, ev} {
		for _, en := range e.log[:e.now()] {
			if en.kind != eStore {
				continue
			}
			if r := rootOf(en.addr); r.op == "alloc" && !ev.allocUsed[r] {
				continue
			}
			gs[en.addr] = ev.B.Or(gs[en.addr], en.g)
		}
	}
	var out []addrUnder
	for a, g := range gs {
		out = append(out, addrUnder{a, g})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].a.id < out[j].a.id })
	return out
}

// topTested: the loop is left before anything of an iteration is done.
func topTested(h *ssa.BasicBlock) bool {
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	for _, s := range h.Succs {
		if s == h {
			return false
		}
	}
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Call:
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		case *ssa.Store, *ssa.MapUpdate, *ssa.Defer, *ssa.Go, *ssa.Send:
			return false
		}
	}
	return true
}

// matchLoop names a loop after one of the guide's.
func (ev *Eval) matchLoop(rec *LoopRec, hash string) {
	gd := ev.guide
	var want *LoopRec
	rec.match = nil
	rec.name = "ref:" + rec.name
	defer func() {
		rec.iter = ev.Sym("k!"+rec.name, types.Typ[types.Int])
	}()
	if rec.parent != nil {
		if rec.parent.match == nil {
			return
		}
		want = rec.parent.match
	}
	used := map[*LoopRec]BDD{}
	for _, r := range ev.recs {
		if r.match != nil {
			used[r.match] = ev.B.Or(used[r.match], r.g0)
		}
	}
	best, bestScore := (*LoopRec)(nil), 0
	for _, l := range gd.recs {
		c := ev.B.And(l.g0, rec.g0)
		if l.parent != want || topTested(l.header) != topTested(rec.header) || c == bFalse || !ev.feasible(c) || ev.B.And(used[l], rec.g0) != bFalse {
			continue
		}
		score := 1
		if l.hash == hash {
			score += 4
		}
		at := l.from - 1
		if ok, _ := ev.sameEntry(c, at, len(ev.log)); ok {
			score += 4
		}
		if k := ev.mapPhis(rec, l, c); !anyOwn(k) {
			score += 2
		}
		if (l.events || len(l.scopes) > 0) == (rec.events || len(rec.scopes) > 0) {
			score++
		}
		if score > bestScore {
			best, bestScore = l, score
		}
	}
	if best == nil {
		return
	}
	rec.match = best
	rec.name = best.name
	rec.keys = ev.mapPhis(rec, best, ev.B.And(best.g0, rec.g0))
}

func (ev *Eval) sameEntry(g BDD, i, j int) (ok bool, why string) {
	ev.guide.asOf(i, func() {
		ev.asOf(j, func() { ok, why = ev.sameState(g) })
	})
	return
}

// mapPhis pairs the variables of two loops that have equal initial values.
func (ev *Eval) mapPhis(rec, l *LoopRec, g BDD) map[*phiRec]string {
	keys := map[*phiRec]string{}
	ev.guide.asOf(l.from-1, func() {
		ev.asOf(len(ev.log), func() {
			count := map[string]int{}
			for _, p := range rec.phis {
				if p.induction {
					keys[p] = ""
					continue
				}
				var cs []*phiRec
				grp := fmt.Sprintf("%p", rec.header)
				for _, q := range l.phis {
					if q.induction || !types.Identical(p.phi.Type(), q.phi.Type()) {
						continue
					}
					if ok, _ := sameValue(ev.guide, ev.outcome(), g, q.init, p.init, map[[2]*Term]bool{}); ok {
						cs = append(cs, q)
						grp += "," + q.key
					}
				}
				p.group = grp
				i := count[grp]
				count[grp]++
				if pm := ev.phiPerm[grp]; i < len(pm) {
					i = pm[i]
				}
				if i < len(cs) {
					keys[p] = cs[i].key
				} else {
					delete(keys, p)
				}
			}
		})
	})
	for p, k := range keys {
		if k == "" {
			delete(keys, p)
		}
	}
	for _, p := range rec.phis { // distinct from every variable of the guide
		if _, ok := keys[p]; !ok && !p.induction {
			keys[p] = fmt.Sprintf("own%d", len(keys))
		}
	}
	return keys
}

func anyOwn(keys map[*phiRec]string) bool {
	for _, k := range keys {
		if strings.HasPrefix(k, "own") {
			return true
		}
	}
	return false
}

// matchAlloc names a new object after the guide's next one of the same type
// in the same loop.
func (ev *Eval) matchAlloc(t types.Type) *Term {
	var want *LoopRec
	if l := ev.curLoop(); l != nil {
		if l.match == nil {
			return nil
		}
		want = l.match
	}
	for _, s := range ev.guide.log {
		if s.kind == eAlloc && !ev.allocUsed[s.addr] && innermost(s) == want && s.addr.typ != nil && types.Identical(s.addr.typ, t) {
			return s.addr
		}
	}
	return nil
}

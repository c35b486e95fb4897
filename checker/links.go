package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01: which child lists carry parent links.
var childLists = map[string][][2]string{
	"MPD":                {{"Periods", "Period"}},
	"Period":             {{"AdaptationSets", "AdaptationSetType"}, {"EmptyAdaptationSets", "AdaptationSetType"}},
	"AdaptationSetType":  {{"Representations", "RepresentationType"}},
	"RepresentationType": {{"SubRepresentations", "SubRepresentationType"}},
}

// parentField finds the field the Parent method of the type reports.
func (p *Program) parentField(typ string) (*types.Named, int, bool) {
	n := p.Named(p.MPD, typ)
	m := p.Method(p.MPD, typ, "Parent")
	if n == nil || m == nil {
		return n, 0, false
	}
	o := newEngine(p).newEval().Run(m, nonNilParams(nil))
	if len(o.results) == 1 && len(o.results[0].parts) == 1 {
		t := o.results[0].parts[0].t
		if t.op == "load" && t.args[0].op == "faddr" && t.args[0].args[0] == o.params[0].parts[0].t {
			var i int
			if _, err := fmt.Sscanf(t.args[0].aux[strings.LastIndex(t.args[0].aux, "#")+1:], "%d", &i); err == nil {
				return n, i, true
			}
		}
	}
	return n, 0, false
}

func fieldIndex(t types.Type, name string) int {
	st := asStruct(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

type linker struct {
	*Outcome
	r       *Report
	rule    string
	what    string
	parents map[string]int // type -> parent field
	used    map[*entry]bool
}

// links checks that every element of every child list below base is linked.
func (l *linker) links(base *Term, typ string, ctx BDD, path string) {
	e := l.Engine
	n := l.P.Named(l.P.MPD, typ)
	for _, cl := range childLists[typ] {
		field, child := cl[0], cl[1]
		name := l.what + ": " + path + field
		fi := fieldIndex(n, field)
		if fi < 0 {
			l.r.Ob(l.rule, name, "", false, "list %s.%s not found", typ, field)
			continue
		}
		fa := l.faddr(base, n, fi)
		final := l.load(ctx, one(ctx, fa), asStruct(n).Field(fi).Type())
		cn := l.P.Named(l.P.MPD, child)
		var problems []string
		done := false
		var elem *Term
		var inner BDD
		for _, en := range l.log {
			if en.kind != eStore || en.addr.op != "faddr" || en.addr != l.faddr(en.addr.args[0], cn, l.parents[child]) {
				continue
			}
			el := en.addr.args[0]
			if el.op != "load" || el.args[0].op != "iaddr" {
				continue
			}
			s, idx := el.args[0].args[0], el.args[0].args[1]
			if s.op != "load" || s.args[0] != fa {
				continue
			}
			where := l.P.Pos(en.pos)
			l.used[en] = true
			if !sameTerm(final, s) {
				problems = append(problems, where+" iterates over a list that is not the final one")
				continue
			}
			var loop *LoopRec
			for _, x := range en.loops {
				k := toLin(idx)
				lenS := toLin(l.lenT(s, s.typ))
				d := k.add(linear{c: map[*Term]int64{x.iter: 1}}, -1)
				rev := lenS.add(k, -1).add(linear{c: map[*Term]int64{x.iter: 1}, k: 1}, -1)
				if len(d.c) == 0 && d.k == 0 || len(rev.c) == 0 && rev.k == 0 {
					loop = x
				}
			}
			if loop == nil {
				problems = append(problems, where+" does not visit every index (index "+idx.String()+")")
				continue
			}
			inRange := l.B.Not(l.le0(toLin(l.lenT(s, s.typ)).add(linear{c: map[*Term]int64{loop.iter: 1}}, -1)))
			bad := ""
			facts := l.factsFor(en)
			if w := e.witness(l.B.And(ctx, facts, l.B.Not(loop.g0))); w != nil {
				bad = "the loop is not reached when " + e.cubeStr(w)
			}
			elemOK := l.B.Not(l.eqTerms(el, l.Nil()))
			for _, x := range loop.exits {
				if w := e.witness(l.B.And(x.g, inRange)); w != nil && bad == "" {
					bad = "the loop ends early when " + e.cubeStr(w)
				}
			}
			it := l.B.And(ctx, facts, inRange, elemOK)
			if !e.feasible(it) && bad == "" {
				bad = "no element is ever visited"
			}
			if w := e.witness(l.B.And(it, l.B.Not(en.g))); w != nil && bad == "" {
				bad = "the link is not set when " + e.cubeStr(w)
			}
			for _, p := range en.val.parts {
				if p.t != base && e.feasible(l.B.And(it, p.g)) && bad == "" {
					bad = "linked to " + p.t.String() + " instead of its container"
				}
			}
			if bad != "" {
				problems = append(problems, where+": "+bad)
				continue
			}
			done, elem, inner = true, el, l.B.And(ctx, inRange, elemOK)
		}
		if !done {
			if len(problems) == 0 {
				problems = append(problems, "no statement links the elements of this list to their container")
			}
			l.r.Ob(l.rule, name, l.P.Pos(l.fn.Pos()), false, "%s", strings.Join(problems, "; "))
			continue
		}
		l.r.Ob(l.rule, name, l.P.Pos(l.fn.Pos()), true, "a loop over the whole list links each element to its container")
		l.links(elem, child, inner, path+field+".")
	}
}

func sameTerm(v Value, t *Term) bool {
	for _, p := range v.parts {
		if p.t != t {
			return false
		}
	}
	return len(v.parts) > 0
}

// checkLinks evaluates fn and checks the tree below the node it sets up.
func (r *Report) checkLinks(rule string, fn *ssa.Function, name, typ string, result bool) {
	if fn == nil {
		r.Ob(rule, name, "", false, "function not found")
		return
	}
	r.guarded(rule, name, r.P.Pos(fn.Pos()), func() {
		ev := newEngine(r.P).newEval()
		ev.assumeElems = true
		ev.modes = r.P.codecOpaque
		o := ev.Run(fn, nonNilParams(nil))
		l := &linker{Outcome: o, r: r, rule: rule, what: name, parents: map[string]int{}, used: map[*entry]bool{}}
		for t := range childLists {
			for _, c := range childLists[t] {
				_, i, ok := r.P.parentField(c[1])
				if !ok {
					r.Ob(rule, name, "", false, "%s has no Parent method reporting a field", c[1])
					return
				}
				l.parents[c[1]] = i
			}
		}
		bases := o.params[0]
		ctx := nonNilParams(nil)(ev, o.params)
		if result {
			bases = o.results[0]
			ctx = ev.dropLoopAtoms(o.ret)
			if n := len(o.results); n > 1 {
				ctx = ev.B.And(ctx, ev.dropLoopAtoms(ev.isNilValue(o.results[n-1])))
			}
		}
		found := false
		for _, p := range bases.parts {
			c := ev.B.And(ctx, ev.dropLoopAtoms(p.g), ev.B.Not(ev.eqTerms(p.t, ev.Nil())))
			if !ev.feasible(c) {
				continue
			}
			found = true
			l.links(p.t, typ, c, "")
		}
		if !found {
			r.Ob(rule, name, r.P.Pos(fn.Pos()), false, "no node is returned")
		}
		for _, en := range o.log {
			if en.kind != eStore || en.addr.op != "faddr" || l.used[en] {
				continue
			}
			for c, i := range l.parents {
				if en.addr == l.faddr(en.addr.args[0], r.P.Named(r.P.MPD, c), i) && en.addr.args[0].op != "alloc" {
					// overwriting the link of the root node itself is its container's business
					r.Ob(rule, name+": no other link writes", r.P.Pos(en.pos), false, "sets the parent link of %s to something else than its container", en.addr.args[0])
				}
			}
		}
		r.Units["ssa_instructions"] += ev.steps
	})
}

func (ev *Eval) isNilValue(v Value) BDD {
	c := bFalse
	for _, p := range v.parts {
		c = ev.B.Or(c, ev.B.And(p.g, ev.eqTerms(p.t, ev.Nil())))
	}
	return c
}

// factsFor: loops completed around en were left through one of their exits.
func (l *linker) factsFor(en *entry) BDD {
	facts := bTrue
	for _, rec := range l.recs {
		own := false
		for _, x := range en.loops {
			own = own || x == rec
		}
		if own {
			continue
		}
		ex := bFalse
		for _, x := range rec.exits {
			ex = l.B.Or(ex, x.g)
		}
		facts = l.B.And(facts, l.B.Or(l.B.Not(rec.g0), ex))
	}
	return facts
}

// setThenGet: SetParent's only effect is to store its argument, whatever it
// is, in the field Parent reads.
func (r *Report) setThenGet(rule, typ string) {
	set := r.P.Method(r.P.MPD, typ, "SetParent")
	n, fi, ok := r.P.parentField(typ)
	if set == nil || !ok {
		r.Ob(rule, typ, "", false, "SetParent or Parent is missing or Parent does not report a field")
		return
	}
	r.guarded(rule, typ, r.P.Pos(set.Pos()), func() {
		ev := newEngine(r.P).newEval()
		o := ev.Run(set, nonNilParams(map[int]bool{1: true}))
		pre := ev.B.Not(ev.isNilValue(o.params[0]))
		fa := ev.faddr(o.params[0].parts[0].t, n, fi)
		got := o.load(pre, one(pre, fa), asStruct(n).Field(fi).Type())
		bad := ""
		if w := ev.witness(ev.B.And(pre, ev.B.Not(o.ret))); w != nil {
			bad = "does not return when " + ev.cubeStr(w)
		}
		if !sameTerm(got, o.params[1].parts[0].t) {
			bad = "stores something else than its argument"
		}
		for _, en := range o.log {
			if en.kind == eEvent || en.kind == eStore && en.addr != fa {
				bad = "has another effect at " + r.P.Pos(en.pos)
			}
		}
		r.Ob(rule, typ, r.P.Pos(set.Pos()), bad == "", "%s", orText(bad, "SetParent stores its argument in the field Parent reads"))
	})
}

func orText(s, alt string) string {
	if s == "" {
		return alt
	}
	return s
}

// codecOpaque treats calls into the XML codec as opaque effects.
func (p *Program) codecOpaque(fn *ssa.Function) callMode {
	if fn.Pkg == p.XML && fn.Pkg != nil {
		return modeEvent
	}
	return modeDefault
}

// dropLoopAtoms forgets what a condition says about loop iterations.
func (ev *Eval) dropLoopAtoms(g BDD) BDD {
	for _, a := range ev.B.Support(g) {
		if hasLoopSym(ev.atomList[a], 0) {
			g = ev.B.Exists(g, a)
		}
	}
	return g
}

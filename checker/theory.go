package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// Consistency of a conjunction of atoms: congruence closure over value
// numbers plus bounds on linear integer terms. It only ever prunes; whatever
// it cannot refute counts as possible.

type theory struct {
	e      *Engine
	parent map[*Term]*Term
	member map[*Term][]*Term // interesting members per representative
	terms  []*Term
	seen   map[*Term]bool
	bad    bool
	depth  int
}

func interesting(t *Term) bool {
	return t.op == "const" || t.op == "nil" || isNonNil(t) || t.op == "lin" && len(t.args) == 0
}

func (th *theory) addTerm(t *Term, d int) {
	if th.seen[t] || d > 30 {
		return
	}
	th.seen[t] = true
	th.terms = append(th.terms, t)
	if interesting(t) {
		th.member[t] = []*Term{t}
	}
	for _, a := range t.args {
		th.addTerm(a, d+1)
	}
}

func (th *theory) find(t *Term) *Term {
	for th.parent[t] != nil {
		t = th.parent[t]
	}
	return t
}

func (th *theory) union(a, b *Term) bool {
	th.addTerm(a, 0)
	th.addTerm(b, 0)
	a, b = th.find(a), th.find(b)
	if a == b {
		return false
	}
	for _, x := range th.member[a] {
		for _, y := range th.member[b] {
			if constDiffer(x, y) {
				th.bad = true
			}
		}
	}
	// keep constants as representatives
	if len(th.member[a]) > 0 && !(len(th.member[b]) > 0 && isConstTerm(th.member[b][0])) {
		a, b = b, a
	}
	th.parent[a] = b
	th.member[b] = append(th.member[b], th.member[a]...)
	return true
}

func isConstTerm(t *Term) bool {
	return t.op == "const" || t.op == "nil" || t.op == "lin" && len(t.args) == 0
}

func constDiffer(x, y *Term) bool {
	if x.op == "lin" && y.op == "lin" {
		return x.k != y.k
	}
	return distinctTerms(x, y)
}

func (th *theory) congruence() {
	for changed := true; changed && !th.bad; {
		changed = false
		sig := map[string]*Term{}
		for i := 0; i < len(th.terms); i++ {
			t := th.terms[i]
			if len(t.args) == 0 || t.op == "alloc" {
				continue
			}
			if t.op == "len" {
				for _, m := range th.member[th.find(t.args[0])] {
					if s, ok := m.constStr(); ok {
						changed = th.union(t, th.e.Int(int64(len(s)))) || changed
					} else if m.op == "nil" {
						changed = th.union(t, th.e.Int(0)) || changed
					}
				}
			}
			if t.op == "call" {
				if c := th.e.foldTerms(t.aux, t.args, th.find); c != nil && th.find(c) != th.find(t) {
					changed = th.union(t, c) || changed
				}
			}
			var sb strings.Builder
			sb.WriteString(t.op + "|" + t.aux)
			for _, a := range t.args {
				fmt.Fprintf(&sb, "|%d", th.find(a).id)
			}
			k := sb.String()
			if o, ok := sig[k]; ok {
				if th.find(o) != th.find(t) {
					th.union(o, t)
					changed = true
				}
			} else {
				sig[k] = t
			}
		}
	}
}

// rep rewrites a linear form over representatives, folding constants.
func (th *theory) rep(l linear) linear {
	r := linear{c: map[*Term]int64{}, k: l.k}
	for t, c := range l.c {
		p := th.find(t)
		if n, ok := p.constInt(); ok {
			r.k += c * n
			continue
		}
		if p.op == "lin" {
			r = r.add(toLin(p), c)
			continue
		}
		r.c[p] += c
		if r.c[p] == 0 {
			delete(r.c, p)
		}
	}
	return r
}

func (e *Engine) consistent(lits []literal) bool {
	th := &theory{e: e, parent: map[*Term]*Term{}, member: map[*Term][]*Term{}, seen: map[*Term]bool{}}
	type pair struct{ a, b *Term }
	var neqs []pair
	var les, nes, eqs []linear
	props := []literal{}
	for _, l := range lits {
		a := e.atomList[l.atom]
		for _, x := range a.args {
			th.addTerm(x, 0)
		}
		switch a.op {
		case "eq":
			if l.pos {
				th.union(a.args[0], a.args[1])
			} else {
				neqs = append(neqs, pair{a.args[0], a.args[1]})
			}
		case "eq0":
			lin := toLin(a.args[0])
			if l.pos {
				eqs = append(eqs, lin)
				ts := lin.terms()
				if len(ts) == 1 && (lin.c[ts[0]] == 1 || lin.c[ts[0]] == -1) {
					th.union(ts[0], e.Int(-lin.k*lin.c[ts[0]]))
				} else if len(ts) == 2 && lin.k == 0 && lin.c[ts[0]]+lin.c[ts[1]] == 0 && (lin.c[ts[0]] == 1 || lin.c[ts[0]] == -1) {
					th.union(ts[0], ts[1])
				}
			} else {
				nes = append(nes, lin)
			}
		case "le0":
			lin := toLin(a.args[0])
			if !l.pos {
				lin = lin.scale(-1)
				lin.k++
			}
			les = append(les, lin)
		default:
			props = append(props, l)
		}
	}
	if th.bad {
		return false
	}
	th.congruence()
	if th.bad {
		return false
	}
	// the text of a part of an array is as long as the part
	for _, l := range lits {
		a := e.atomList[l.atom]
		if a.op != "eq" || !l.pos {
			continue
		}
		for i, t := range a.args {
			if c, ok := th.find(a.args[1-i]).constStr(); ok && t.op == "str" && len(t.args) == 3 {
				lin := toLin(t.args[1]).add(toLin(t.args[0]), -1)
				lin.k -= int64(len(c))
				eqs = append(eqs, lin)
			}
		}
	}
	for _, p := range neqs {
		x, y := th.find(p.a), th.find(p.b)
		if x == y {
			return false
		}
		if s, ok := p.b.constStr(); ok && s == "" {
			if ln := e.mk("len", "", types.Typ[types.Int], p.a); th.seen[ln] {
				les = append(les, linear{c: map[*Term]int64{ln: -1}, k: 1})
			}
		}
		if s, ok := p.a.constStr(); ok && s == "" {
			if ln := e.mk("len", "", types.Typ[types.Int], p.b); th.seen[ln] {
				les = append(les, linear{c: map[*Term]int64{ln: -1}, k: 1})
			}
		}
		for _, a := range th.member[x] {
			for _, b := range th.member[y] {
				if a == b || isConstTerm(a) && isConstTerm(b) && !constDiffer(a, b) && a.op == b.op {
					return false
				}
			}
		}
	}
	// congruent propositional atoms must agree; exclusive ones exclude each other
	sig := map[string]bool{}
	for _, l := range props {
		a := e.atomList[l.atom]
		if a.op == "bool" {
			if b, ok := th.find(a.args[0]).constBool(); ok && b != l.pos {
				return false
			}
		}
		var sb strings.Builder
		sb.WriteString(a.op + "|" + a.aux)
		for _, x := range a.args {
			fmt.Fprintf(&sb, "|%d", th.find(x).id)
		}
		if v, ok := sig[sb.String()]; ok && v != l.pos {
			return false
		}
		sig[sb.String()] = l.pos
		if l.pos {
			switch a.op {
			case "typeis":
				for _, m := range th.member[th.find(a.args[0])] {
					if m.op == "nil" {
						return false
					}
				}
				for _, l2 := range props {
					b := e.atomList[l2.atom]
					if l2.pos && b.op == "typeis" && b != a && th.find(b.args[0]) == th.find(a.args[0]) &&
						a.ctyp != nil && b.ctyp != nil && !types.IsInterface(a.ctyp) && !types.IsInterface(b.ctyp) && !types.Identical(a.ctyp, b.ctyp) {
						return false
					}
				}
			case "lt":
				if th.find(a.args[0]) == th.find(a.args[1]) {
					return false
				}
				if x, y := constOf(th, a.args[0]), constOf(th, a.args[1]); x != nil && y != nil && !constant.Compare(x, 40, y) {
					return false
				}
			}
		}
	}
	// linear part
	var cons []linear
	for _, l := range les {
		cons = append(cons, th.rep(l))
	}
	for _, l := range eqs {
		r := th.rep(l)
		cons = append(cons, r, r.scale(-1))
	}
	var ne2 []linear
	for _, l := range nes {
		r := th.rep(l)
		if len(r.c) == 0 {
			if r.k == 0 {
				return false
			}
			continue
		}
		ne2 = append(ne2, r)
	}
	if len(cons) == 0 && len(ne2) == 0 {
		return true
	}
	bounds := map[*Term]bool{}
	addB := func(l linear) {
		for t := range l.c {
			if bounds[t] {
				continue
			}
			bounds[t] = true
			if nonNegative(t) {
				cons = append(cons, linear{c: map[*Term]int64{t: -1}})
			}
			if t.typ != nil && isUnsigned(t.typ) && intBits(t.typ) == 8 {
				cons = append(cons, linear{c: map[*Term]int64{t: 1}, k: -255})
			}
			if _, search := searchResult(t); search {
				cons = append(cons, linear{c: map[*Term]int64{t: -1}, k: -1})
				if s, ok := t.args[1].constStr(); ok && s != "" && strings.HasPrefix(t.aux, "strings.") {
					// below the length of what is searched
					ln := e.mk("len", "", intT, t.args[0])
					cons = append(cons, th.rep(linear{c: map[*Term]int64{t: 1, ln: -1}, k: 1}))
				}
			}
			if lo, hi, ok := e.rangeOf(t); ok {
				cons = append(cons, linear{c: map[*Term]int64{t: -1}, k: lo}, linear{c: map[*Term]int64{t: 1}, k: -hi})
			}
		}
	}
	if len(e.facts) > 0 {
		used := map[*Term]bool{}
		addF := func(l linear) {
			for t := range l.c {
				if !used[t] {
					used[t] = true
					for _, f := range e.facts[t] {
						cons = append(cons, th.rep(f))
					}
				}
			}
		}
		for i := 0; i < len(cons) && i < 200; i++ {
			addF(cons[i])
		}
		for _, l := range ne2 {
			addF(l)
		}
	}
	n := len(cons)
	for i := 0; i < n; i++ {
		addB(cons[i])
	}
	for _, l := range ne2 {
		addB(l)
	}
	return splitFeasible(cons, ne2, th.searches())
}

// searches: what holds between the searches of one string for one separator,
// each as two alternatives of which one holds.
func (th *theory) searches() [][2][]linear {
	type key struct{ s, sep *Term }
	found := map[key]map[string]*Term{}
	var order []key
	for _, t := range th.terms {
		if t.op != "call" || len(t.args) != 2 {
			continue
		}
		switch t.aux {
		case "strings.Count#0", "strings.Index#0", "strings.LastIndex#0":
			if c, ok := th.find(t.args[1]).constStr(); !ok || c == "" {
				continue
			}
			k := key{th.find(t.args[0]), th.find(t.args[1])}
			if found[k] == nil {
				found[k] = map[string]*Term{}
				order = append(order, k)
			}
			found[k][t.aux] = t
		}
	}
	var out [][2][]linear
	le := func(k int64, cs ...any) linear { // sum + k <= 0
		l := linear{c: map[*Term]int64{}, k: k}
		for i := 0; i+1 < len(cs); i += 2 {
			l.c[cs[i+1].(*Term)] += int64(cs[i].(int))
		}
		return th.rep(l)
	}
	for _, k := range order {
		m := found[k]
		n, i, l := m["strings.Count#0"], m["strings.Index#0"], m["strings.LastIndex#0"]
		none, some := []linear{}, []linear{}
		for _, x := range []*Term{i, l} {
			if x != nil {
				none = append(none, le(1, 1, x)) // x <= -1
				some = append(some, le(0, -1, x))
			}
		}
		if n != nil {
			none = append(none, le(0, 1, n))
			some = append(some, le(1, -1, n))
		}
		if i != nil && l != nil {
			some = append(some, le(0, 1, i, -1, l))
		}
		if len(m) > 1 {
			out = append(out, [2][]linear{none, some})
		}
	}
	return out
}

func splitFeasible(cons, nes []linear, alts [][2][]linear) bool {
	if len(alts) == 0 || len(alts) > 4 {
		return linFeasible(cons, nes, 0)
	}
	for _, a := range alts[0] {
		if splitFeasible(append(append([]linear(nil), cons...), a...), nes, alts[1:]) {
			return true
		}
	}
	return false
}

func constOf(th *theory, t *Term) constant.Value {
	r := th.find(t)
	if r.op == "const" {
		return r.val
	}
	return nil
}

func linFeasible(cons, nes []linear, d int) bool {
	if !fm(cons) {
		return false
	}
	if d >= 32 {
		return true
	}
	// disequalities: only those that some bound makes tight matter
	for i, n := range nes {
		rest := append(append([]linear(nil), nes[:i]...), nes[i+1:]...)
		lo := n
		lo.k++ // n <= -1
		hi := n.scale(-1)
		hi.k++ // n >= 1
		a := fm(append(append([]linear(nil), cons...), linear{c: lo.c, k: lo.k}))
		b := fm(append(append([]linear(nil), cons...), hi))
		switch {
		case !a && !b:
			return false
		case !a:
			return linFeasible(append(append([]linear(nil), cons...), hi), rest, d+1)
		case !b:
			return linFeasible(append(append([]linear(nil), cons...), linear{c: lo.c, k: lo.k}), rest, d+1)
		}
	}
	return true
}

// fm eliminates variables from sum <= 0 constraints; false means infeasible.
func fm(cons []linear) bool {
	work := append([]linear(nil), cons...)
	for round := 0; round < 60; round++ {
		count := map[*Term][2]int{}
		for _, l := range work {
			if len(l.c) == 0 {
				if l.k > 0 {
					return false
				}
				continue
			}
			for t, c := range l.c {
				x := count[t]
				if c > 0 {
					x[0]++
				} else {
					x[1]++
				}
				count[t] = x
			}
		}
		if len(count) == 0 {
			return true
		}
		var best *Term
		bc := 1 << 30
		for t, x := range count {
			if p := x[0]*x[1] - x[0] - x[1]; p < bc || p == bc && (best == nil || t.id < best.id) {
				best, bc = t, p
			}
		}
		var pos, neg, rest []linear
		for _, l := range work {
			switch c := l.c[best]; {
			case c > 0:
				pos = append(pos, l)
			case c < 0:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		if len(pos)*len(neg) > 400 {
			return true
		}
		uniq := map[string]bool{}
		for _, p := range pos {
			for _, n := range neg {
				a, b := p.c[best], -n.c[best]
				if a > 1<<20 || b > 1<<20 {
					continue
				}
				r := p.scale(b).add(n.scale(a), 1)
				delete(r.c, best)
				r = tighten(r)
				k := linKey(r)
				if !uniq[k] {
					uniq[k] = true
					rest = append(rest, r)
				}
			}
		}
		work = rest
		if len(work) > 600 {
			return true
		}
	}
	return true
}

func linKey(l linear) string {
	var sb strings.Builder
	fmt.Fprint(&sb, l.k)
	for _, t := range l.terms() {
		fmt.Fprintf(&sb, ",%d*%d", l.c[t], t.id)
	}
	return sb.String()
}

func tighten(l linear) linear {
	var g int64
	for _, c := range l.c {
		g = gcd(g, c)
	}
	if g <= 1 {
		return l
	}
	r := linear{c: map[*Term]int64{}}
	for t, c := range l.c {
		r.c[t] = c / g
	}
	// sum/g + k/g <= 0 -> ceil(k/g)
	k := l.k / g
	if l.k%g != 0 && l.k > 0 {
		k++
	}
	r.k = k
	return r
}

// feasible reports whether some assignment of x is not refuted by the theory.
func (e *Engine) feasible(x BDD) bool {
	if x == bFalse {
		return false
	}
	if x == bTrue {
		return true
	}
	if v, ok := e.feasC[x]; ok {
		return v
	}
	w := e.witness(x)
	e.feasC[x] = w != nil
	return w != nil
}

// witness returns the literals of one consistent cube of x, nil if none. A
// cube that is refuted is cut down to the few literals that contradict each
// other, and every case containing those is dropped at once.
func (e *Engine) witness(x BDD) []literal {
	if x > bTrue && len(e.conflicts) > 0 {
		sup := e.B.support(x)
		for _, c := range e.conflicts {
			all := true
			for _, l := range c.lits {
				all = all && sup[int32(l.atom)]
			}
			if all {
				x = e.B.And(x, c.not)
			}
		}
	}
	for n := 0; ; n++ {
		if x == bFalse {
			return nil
		}
		if x == bTrue {
			return []literal{}
		}
		if n > 4000 {
			panic("too many cases in a feasibility question")
		}
		e.tick()
		cube := e.B.path(x)
		if e.consistent(cube) {
			return cube
		}
		core := e.core(cube)
		c := bTrue
		for _, l := range core {
			v := e.B.node(int32(l.atom), bFalse, bTrue)
			if !l.pos {
				v = e.B.Not(v)
			}
			c = e.B.And(c, v)
		}
		not := e.B.Not(c)
		if y := e.B.And(x, not); y != x {
			x = y
		} else { // nodes reduced by implications may hide the core
			for _, l := range cube {
				v := e.B.node(int32(l.atom), bFalse, bTrue)
				if !l.pos {
					v = e.B.Not(v)
				}
				c = e.B.And(c, v)
			}
			if y := e.B.And(x, e.B.Not(c)); y != x {
				x = y
			} else {
				return e.search(x)
			}
			continue
		}
		if len(core) <= 6 {
			e.conflicts = append(e.conflicts, conflict{core, not})
		}
	}
}

type conflict struct {
	lits []literal
	not  BDD
}

// core shrinks an inconsistent cube.
func (e *Engine) core(cube []literal) []literal {
	// the shortest inconsistent beginning
	lo, hi := 1, len(cube)
	for lo < hi {
		m := (lo + hi) / 2
		if e.consistent(cube[:m]) {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if e.consistent(cube[:hi]) {
		hi = len(cube)
	}
	cur := append([]literal(nil), cube[:hi]...)
	for step := len(cur) / 2; step >= 1; step /= 2 {
		for i := 0; i < len(cur) && len(cur) > 1; {
			j := min(i+step, len(cur))
			try := append(append([]literal(nil), cur[:i]...), cur[j:]...)
			if len(try) > 0 && !e.consistent(try) {
				cur = try
			} else {
				i = j
			}
		}
	}
	return cur
}

// search tries the cases one by one.
func (e *Engine) search(x BDD) []literal {
	n := 0
	var cur []literal
	var found []literal
	var rec func(BDD) bool
	rec = func(x BDD) bool {
		if x == bFalse {
			return false
		}
		n++
		if n > 20000 {
			panic("too many cases in a feasibility question")
		}
		e.tick()
		if len(cur) > 0 && !e.consistent(cur) {
			return false
		}
		if x == bTrue {
			found = append([]literal{}, cur...)
			return true
		}
		nd := e.B.nodes[x]
		cur = append(cur, literal{int(nd.v), true})
		if rec(nd.hi) {
			return true
		}
		cur[len(cur)-1].pos = false
		if rec(nd.lo) {
			return true
		}
		cur = cur[:len(cur)-1]
		return false
	}
	rec(x)
	return found
}

func (e *Engine) litStr(l literal) string {
	a := e.atomList[l.atom]
	s := ""
	switch a.op {
	case "eq":
		s = a.args[0].String() + " == " + a.args[1].String()
	case "eq0":
		s = a.args[0].String() + " == 0"
	case "le0":
		s = a.args[0].String() + " <= 0"
	case "typeis":
		s = a.args[0].String() + " is " + a.aux
	case "lt":
		s = a.args[0].String() + " < " + a.args[1].String()
	case "le":
		s = a.args[0].String() + " <= " + a.args[1].String()
	default:
		s = a.String()
	}
	if !l.pos {
		return "!(" + s + ")"
	}
	return s
}

func (e *Engine) cubeStr(ls []literal) string {
	if len(ls) == 0 {
		return "always"
	}
	var p []string
	for _, l := range ls {
		p = append(p, e.litStr(l))
	}
	return strings.Join(p, " && ")
}

// guardStr shows a guard as the first few of its cases.
func (e *Engine) guardStr(x BDD) string {
	var out []string
	e.B.Cubes(x, func(ls []literal) bool {
		out = append(out, e.cubeStr(ls))
		return len(out) < 6
	})
	return strings.Join(out, "  ||  ")
}

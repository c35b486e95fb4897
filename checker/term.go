package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Value numbering. Every scalar value the analysed code computes is given a
// hash-consed term; equal terms denote equal values wherever both are defined.

type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type

	fn   *ssa.Function // func, closure
	ctyp types.Type    // iface: dynamic type; tassert: asserted type
	// lin: sum(coef[i]*args[i]) + k
	coef []int64
	k    int64
	// const
	val    constant.Value
	nonnil bool
}

func (t *Term) is(op string) bool { return t.op == op }

type Engine struct {
	P *Program
	B *BDDs

	terms    map[string]*Term
	nterm    int
	atoms    map[*Term]int
	atomList []*Term

	// Mode decides how a callee is treated; nil means the default.
	Mode     func(fn *ssa.Function) callMode
	Alias    map[*ssa.Function]string // canonical name of a function (reference -> subject)
	MaxParts int
	MaxDepth int

	gconst     map[*ssa.Global]int // 0 unknown, 1 constant after init, 2 mutable
	zeroFld    map[string]bool
	feasC      map[BDD]bool
	facts      map[*Term][]linear // inductive bounds (<= 0) of loop variables
	factC      map[int]bool
	snaps      map[*Term]*snapshot
	budget     int
	allocNames []string
	closures   map[*Term][]Value
	rel        related
	conflicts  []conflict
	ticks      int
	deadline   time.Time
}

// A comparison that does not come to an end in subjectTime, and every one that
// begins after totalTime, is given up.
const (
	subjectTime = 60 * time.Second
	totalTime   = 600 * time.Second
)

var processStart = time.Now()

func (e *Engine) tick() {
	if e.ticks++; e.ticks&0xf == 0 {
		if now := time.Now(); now.After(e.deadline) {
			panic("analysis takes too long")
		}
	}
}

type callMode int

const (
	modeDefault callMode = iota
	modeInline
	modePure
	modeEvent
)

func newEngine(p *Program) *Engine {
	e := &Engine{P: p, B: newBDDs(), terms: map[string]*Term{}, atoms: map[*Term]int{},
		Alias: map[*ssa.Function]string{}, MaxParts: 200, MaxDepth: 40, gconst: map[*ssa.Global]int{},
		feasC: map[BDD]bool{}, facts: map[*Term][]linear{}, closures: map[*Term][]Value{}, snaps: map[*Term]*snapshot{}, budget: 3_000_000}
	e.rel.groups = map[string][]int{}
	e.deadline = time.Now().Add(subjectTime)
	if d := processStart.Add(totalTime); d.Before(e.deadline) {
		e.deadline = d
	}
	e.B.tick = e.tick
	e.B.implied = func(v int32, val bool) []literal {
		if val {
			return e.rel.imp[1][v]
		}
		return e.rel.imp[0][v]
	}
	return e
}

func (e *Engine) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := e.terms[k]; ok {
		return t
	}
	e.nterm++
	t := &Term{id: e.nterm, op: op, aux: aux, typ: typ, args: append([]*Term(nil), args...)}
	e.terms[k] = t
	return t
}

func basicOf(t types.Type) *types.Basic {
	if t == nil {
		return nil
	}
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func isIntType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsUnsigned != 0
}

func isFloatType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}

func isStringType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}

func isBoolType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func intBits(t types.Type) int {
	b := basicOf(t)
	if b == nil {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func (e *Engine) Int(n int64) *Term {
	t := e.mk("lin", fmt.Sprint(n), types.Typ[types.Int])
	t.k = n
	return t
}

func (e *Engine) Str(s string) *Term {
	t := e.mk("const", "s:"+s, types.Typ[types.String])
	t.val = constant.MakeString(s)
	return t
}

func (e *Engine) Bool(b bool) *Term {
	t := e.mk("const", fmt.Sprint("b:", b), types.Typ[types.Bool])
	t.val = constant.MakeBool(b)
	return t
}

func (e *Engine) Float(v constant.Value) *Term {
	v = constant.ToFloat(v)
	t := e.mk("const", "f:"+v.ExactString(), types.Typ[types.Float64])
	t.val = v
	return t
}

func (e *Engine) Nil() *Term { return e.mk("nil", "", nil) }

func (e *Engine) Sym(name string, t types.Type) *Term { return e.mk("sym", name, t) }

func (t *Term) constStr() (string, bool) {
	if t.op == "const" && t.val != nil && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	return "", false
}

func (t *Term) constInt() (int64, bool) {
	if t.op == "lin" && len(t.args) == 0 {
		return t.k, true
	}
	return 0, false
}

func (t *Term) constBool() (bool, bool) {
	if t.op == "const" && t.val != nil && t.val.Kind() == constant.Bool {
		return constant.BoolVal(t.val), true
	}
	return false, false
}

// linear views any integer term as coefficients over base terms.
type linear struct {
	c map[*Term]int64
	k int64
}

func toLin(t *Term) linear {
	if t.op == "lin" {
		l := linear{c: map[*Term]int64{}, k: t.k}
		for i, a := range t.args {
			l.c[a] = t.coef[i]
		}
		return l
	}
	return linear{c: map[*Term]int64{t: 1}}
}

func (a linear) add(b linear, f int64) linear {
	r := linear{c: map[*Term]int64{}, k: a.k + f*b.k}
	for t, c := range a.c {
		r.c[t] += c
	}
	for t, c := range b.c {
		r.c[t] += f * c
		if r.c[t] == 0 {
			delete(r.c, t)
		}
	}
	return r
}

func (a linear) scale(f int64) linear {
	r := linear{c: map[*Term]int64{}, k: a.k * f}
	if f == 0 {
		return r
	}
	for t, c := range a.c {
		r.c[t] = c * f
	}
	return r
}

func (a linear) terms() []*Term {
	var ts []*Term
	for t := range a.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

func (e *Engine) fromLin(l linear, typ types.Type) *Term {
	ts := l.terms()
	if len(ts) == 1 && l.k == 0 && l.c[ts[0]] == 1 {
		return ts[0]
	}
	if len(ts) == 0 {
		return e.Int(l.k)
	}
	var cs []int64
	var sb strings.Builder
	fmt.Fprint(&sb, l.k)
	for _, t := range ts {
		cs = append(cs, l.c[t])
		fmt.Fprintf(&sb, ",%d", l.c[t])
	}
	r := e.mk("lin", sb.String(), typ, ts...)
	r.coef, r.k = cs, l.k
	return r
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 8 {
		return "…"
	}
	sub := func() string {
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.op {
	case "const":
		if t.val != nil {
			return t.val.String()
		}
		return t.aux
	case "nil":
		return "nil"
	case "lin":
		var p []string
		for i, a := range t.args {
			switch t.coef[i] {
			case 1:
				p = append(p, a.str(d+1))
			case -1:
				p = append(p, "-"+a.str(d+1))
			default:
				p = append(p, fmt.Sprintf("%d*%s", t.coef[i], a.str(d+1)))
			}
		}
		if t.k != 0 || len(p) == 0 {
			p = append(p, fmt.Sprint(t.k))
		}
		if len(p) == 1 {
			return p[0]
		}
		return "(" + strings.Join(p, "+") + ")"
	case "param", "sym":
		return t.aux
	case "alloc":
		return "new#" + t.aux
	case "global":
		return t.aux
	case "gconst":
		return t.aux
	case "faddr":
		return t.args[0].str(d+1) + "." + fieldName(t.ctyp, t.aux)
	case "iaddr":
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case "load":
		v := ""
		if len(t.args) > 1 && t.args[1].aux != "m0" {
			v = "@" + t.args[1].aux
		}
		a := t.args[0]
		if a.op == "faddr" || a.op == "iaddr" {
			return a.str(d+1) + v
		}
		return "*" + a.str(d+1) + v
	case "iface":
		return typeStr(t.ctyp) + "(" + sub() + ")"
	case "tassert":
		return t.args[0].str(d+1) + ".(" + typeStr(t.ctyp) + ")"
	}
	return t.op + ":" + t.aux + "(" + sub() + ")"
}

func fieldName(st types.Type, aux string) string {
	var i int
	if j := strings.LastIndexByte(aux, '#'); j >= 0 {
		fmt.Sscan(aux[j+1:], &i)
	}
	if st != nil {
		if s := asStruct(st); s != nil && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return aux
}

// ---- guarded values -------------------------------------------------------

type part struct {
	g BDD
	t *Term
}

// Value is a guarded set of terms (scalars), or an aggregate of Values.
type Value struct {
	parts []part
	agg   []Value
	typ   types.Type // aggregates
}

func (v Value) isAgg() bool { return v.agg != nil || (v.typ != nil && len(v.parts) == 0) }

func one(g BDD, t *Term) Value { return Value{parts: []part{{g, t}}} }

func scalar(t *Term) Value { return Value{parts: []part{{bTrue, t}}} }

func (e *Engine) norm(ps []part) []part {
	idx := map[*Term]int{}
	var out []part
	for _, p := range ps {
		if p.g == bFalse {
			continue
		}
		if i, ok := idx[p.t]; ok {
			out[i].g = e.B.Or(out[i].g, p.g)
			continue
		}
		idx[p.t] = len(out)
		out = append(out, p)
	}
	return out
}

// restrict keeps what is possible under g.
func (e *Engine) restrict(v Value, g BDD) Value {
	if v.isAgg() {
		r := Value{typ: v.typ, agg: make([]Value, len(v.agg))}
		for i := range v.agg {
			r.agg[i] = e.restrict(v.agg[i], g)
		}
		return r
	}
	if g == bTrue {
		return v
	}
	var out []part
	for _, p := range v.parts {
		if n := e.B.And(p.g, g); n != bFalse {
			out = append(out, part{n, p.t})
		}
	}
	return Value{parts: out}
}

// merge joins alternatives whose guards are disjoint.
func (e *Engine) merge(vs ...Value) Value {
	for _, v := range vs {
		if v.isAgg() {
			r := Value{typ: v.typ, agg: make([]Value, len(v.agg))}
			for i := range v.agg {
				var xs []Value
				for _, w := range vs {
					if w.isAgg() && i < len(w.agg) {
						xs = append(xs, w.agg[i])
					}
				}
				r.agg[i] = e.merge(xs...)
			}
			return r
		}
	}
	var ps []part
	for _, v := range vs {
		ps = append(ps, v.parts...)
	}
	ps = e.norm(ps)
	if len(ps) > e.MaxParts {
		panic(fmt.Sprintf("value with %d alternatives", len(ps)))
	}
	return Value{parts: ps}
}

// lift applies f to every feasible combination of the operands under g.
func (e *Engine) lift(g BDD, f func(ts []*Term) *Term, vs ...Value) Value {
	var out []part
	ts := make([]*Term, len(vs))
	var rec func(i int, g BDD)
	rec = func(i int, g BDD) {
		if i == len(vs) {
			if t := f(ts); t != nil {
				out = append(out, part{g, t})
			}
			return
		}
		for _, p := range vs[i].parts {
			if n := e.B.And(g, p.g); n != bFalse {
				ts[i] = p.t
				rec(i+1, n)
			}
		}
	}
	rec(0, g)
	out = e.norm(out)
	if len(out) > e.MaxParts {
		panic(fmt.Sprintf("value with %d alternatives", len(out)))
	}
	return Value{parts: out}
}

// boolean turns a BDD into a boolean value under g.
func (e *Engine) boolean(g, c BDD) Value {
	var ps []part
	if n := e.B.And(g, c); n != bFalse {
		ps = append(ps, part{n, e.Bool(true)})
	}
	if n := e.B.And(g, e.B.Not(c)); n != bFalse {
		ps = append(ps, part{n, e.Bool(false)})
	}
	return Value{parts: ps}
}

// truth is the condition under which v is true.
func (e *Engine) truth(v Value) BDD {
	r := bFalse
	for _, p := range v.parts {
		r = e.B.Or(r, e.B.And(p.g, e.truthT(p.t)))
	}
	return r
}

func (e *Engine) truthT(t *Term) BDD {
	if b, ok := t.constBool(); ok {
		if b {
			return bTrue
		}
		return bFalse
	}
	return e.atom(e.mk("bool", "", types.Typ[types.Bool], t))
}

func (e *Engine) atom(t *Term) BDD {
	i, ok := e.atoms[t]
	if !ok {
		i = len(e.atomList)
		e.atoms[t] = i
		e.atomList = append(e.atomList, t)
		e.relate(i, t)
	}
	return e.B.Var(i)
}

// related holds the implications between pairs of atoms about one quantity.
type related struct {
	groups map[string][]int // atoms by the quantity they are about
	imp    [2][][]literal   // imp[val][atom]: later atoms implied
}

// relate records how the new atom i depends on the earlier ones.
func (e *Engine) relate(i int, t *Term) {
	r := &e.rel
	r.imp[0] = append(r.imp[0], nil)
	r.imp[1] = append(r.imp[1], nil)
	var keys []string
	switch t.op {
	case "eq0", "le0":
		keys = []string{"n" + linKey(linear{c: toLin(t.args[0]).c})}
	case "eq":
		for _, a := range t.args {
			keys = append(keys, fmt.Sprint("t", a.id))
		}
	case "typeis":
		keys = []string{fmt.Sprint("t", t.args[0].id)}
	}
	for _, k := range keys {
		for _, j := range r.groups[k] {
			for v := 0; v < 2; v++ {
				if f, ok := implies(e.atomList[j], v == 1, t); ok {
					r.imp[v][j] = append(r.imp[v][j], literal{i, f})
				}
			}
		}
		r.groups[k] = append(r.groups[k], i)
	}
}

// implies: the value of atom b that follows from atom a having value va.
func implies(a *Term, va bool, b *Term) (bool, bool) {
	switch a.op {
	case "eq0", "le0":
		x, y := -toLin(a.args[0]).k, -toLin(b.args[0]).k
		switch {
		case a.op == "eq0" && va && b.op == "eq0":
			return false, true // another constant
		case a.op == "eq0" && va:
			return x <= y, true
		case a.op == "le0" && va && b.op == "eq0" && y > x:
			return false, true
		case a.op == "le0" && va && b.op == "le0" && y >= x:
			return true, true
		case a.op == "le0" && !va && b.op == "eq0" && y <= x:
			return false, true
		case a.op == "le0" && !va && b.op == "le0" && y <= x:
			return false, true
		}
	case "eq":
		if !va {
			return false, false
		}
		if b.op == "eq" {
			for _, x := range a.args {
				for _, y := range b.args {
					if x == y {
						p, q := other(a, x), other(b, y)
						if isConstTerm(p) && isConstTerm(q) && distinctTerms(p, q) || p.op == "nil" && isNonNil(q) || q.op == "nil" && isNonNil(p) {
							return false, true
						}
						if p.op == "gconst" && q.op == "gconst" && distinctTerms(p, q) {
							return false, true
						}
					}
				}
			}
		} else if b.op == "typeis" && (a.args[0] == b.args[0] && a.args[1].op == "nil" || a.args[1] == b.args[0] && a.args[0].op == "nil") {
			return false, true
		}
	case "typeis":
		if !va {
			return false, false
		}
		if b.op == "eq" {
			if o := other(b, a.args[0]); o.op == "nil" {
				return false, true
			}
		} else if b.op == "typeis" && a.ctyp != nil && b.ctyp != nil && !types.IsInterface(a.ctyp) {
			if it, ok := b.ctyp.Underlying().(*types.Interface); ok {
				return types.Implements(a.ctyp, it), true
			}
			if !types.Identical(a.ctyp, b.ctyp) {
				return false, true
			}
		}
	}
	return false, false
}

func other(eq, x *Term) *Term {
	if eq.args[0] == x {
		return eq.args[1]
	}
	return eq.args[0]
}

// ---- atoms -----------------------------------------------------------------

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// le0 is the condition lin <= 0 over mathematical integers.
func (e *Engine) le0(l linear) BDD {
	ts := l.terms()
	if len(ts) == 0 {
		if l.k <= 0 {
			return bTrue
		}
		return bFalse
	}
	var g int64
	for _, t := range ts {
		g = gcd(g, l.c[t])
	}
	if g > 1 { // sum + k <= 0  <=>  sum/g <= floor(-k/g)
		q := new(big.Int).Div(big.NewInt(-l.k), big.NewInt(g)) // Euclidean = floor for g>0
		n := linear{c: map[*Term]int64{}, k: -q.Int64()}
		for _, t := range ts {
			n.c[t] = l.c[t] / g
		}
		l = n
	}
	if len(ts) == 1 && ts[0].op == "conv" && (l.c[ts[0]] == 1 || l.c[ts[0]] == -1) {
		if lo, hi, ok := e.rangeOf(ts[0]); ok && lo < hi {
			if l.c[ts[0]] < 0 { // x >= k: not x <= k-1
				return e.B.Not(e.le0(linear{c: map[*Term]int64{ts[0]: 1}, k: 1 - l.k}))
			}
			switch most := -l.k; {
			case most >= hi:
				return bTrue
			case most < lo:
				return bFalse
			case most == lo:
				return e.eq0(linear{c: map[*Term]int64{ts[0]: 1}, k: -lo})
			case most == hi-1:
				return e.B.Not(e.eq0(linear{c: map[*Term]int64{ts[0]: 1}, k: -hi}))
			}
		}
	}
	if len(ts) == 1 && l.c[ts[0]] == 1 && nonNegative(ts[0]) && l.k > 0 {
		return bFalse
	}
	if len(ts) == 1 && l.c[ts[0]] == -1 && nonNegative(ts[0]) && l.k <= 0 {
		return bTrue
	}
	if len(ts) == 1 && l.c[ts[0]] == 1 && nonNegative(ts[0]) && l.k == 0 {
		return e.eq0(l) // x <= 0 and x >= 0
	}
	if len(ts) == 1 && l.c[ts[0]] == -1 && nonNegative(ts[0]) && l.k == 1 {
		return e.B.Not(e.eq0(linear{c: map[*Term]int64{ts[0]: 1}}))
	}
	if len(ts) > 1 {
		if lo, hi, ok := l.remainder(); ok {
			switch {
			case hi <= 0:
				return bTrue
			case lo > 0:
				return bFalse
			case lo == 0:
				return e.eq0(l)
			}
		}
		n := l.scale(-1)
		n.k++ // not l <= 0  <=>  n <= 0
		if lo, hi, ok := n.remainder(); ok {
			switch {
			case hi <= 0:
				return bFalse
			case lo > 0:
				return bTrue
			case lo == 0:
				return e.B.Not(e.eq0(n))
			}
		}
	}
	if l.c[ts[0]] < 0 { // -x + k <= 0 <=> not (x - k + 1 <= 0)
		n := l.scale(-1)
		n.k++
		return e.B.Not(e.atom(e.mk("le0", "", nil, e.fromLin2(n))))
	}
	return e.atom(e.mk("le0", "", nil, e.fromLin2(l)))
}

// fromLin2 always yields a lin node's canonical term (a base term stands for itself).
func (e *Engine) fromLin2(l linear) *Term { return e.fromLin(l, types.Typ[types.Int]) }

func nonNegative(t *Term) bool {
	switch t.op {
	case "len", "cap":
		return true
	case "call":
		if c, _ := searchResult(t); c {
			return true
		}
	case "sym":
		if strings.HasPrefix(t.aux, "k!") {
			return true
		}
	}
	return t.typ != nil && isUnsigned(t.typ)
}

func (e *Engine) eq0(l linear) BDD {
	ts := l.terms()
	if len(ts) == 0 {
		if l.k == 0 {
			return bTrue
		}
		return bFalse
	}
	var g int64
	for _, t := range ts {
		g = gcd(g, l.c[t])
	}
	if g > 1 {
		if l.k%g != 0 {
			return bFalse
		}
		n := linear{c: map[*Term]int64{}, k: l.k / g}
		for _, t := range ts {
			n.c[t] = l.c[t] / g
		}
		l = n
	}
	if len(ts) == 1 && nonNegative(ts[0]) && l.c[ts[0]]*l.k > 0 {
		return bFalse
	}
	if l.c[ts[0]] < 0 {
		l = l.scale(-1)
	}
	// a reinterpreted value equals a small number if the value does
	if len(ts) == 1 && l.k <= 0 && l.c[ts[0]] == 1 && ts[0].op == "conv" && ts[0].args[0].typ != nil && ts[0].typ != nil {
		if t := ts[0].args[0]; isIntType(t.typ) && isIntType(ts[0].typ) && intBits(t.typ) == intBits(ts[0].typ) && -l.k < 1<<7 {
			return e.eq0(toLin(t).add(linear{k: l.k}, 1))
		}
	}
	// len(s) == 0 for a string is s == ""
	if len(ts) == 1 && l.k == 0 && ts[0].op == "len" && isStringType(ts[0].args[0].typ) {
		return e.eqAtom(ts[0].args[0], e.Str(""))
	}
	return e.atom(e.mk("eq0", "", nil, e.fromLin2(l)))
}

func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "const" && b.op == "const" {
		return a.val.Kind() == b.val.Kind() && !constant.Compare(a.val, token.EQL, b.val) || a.val.Kind() != b.val.Kind()
	}
	x, y := a, b
	for i := 0; i < 2; i++ {
		if x.op == "nil" && (y.nonnil || isNonNil(y)) {
			return true
		}
		x, y = y, x
	}
	if a.op == "alloc" && b.op == "alloc" {
		return true
	}
	for i := 0; i < 2; i++ {
		if x.op == "alloc" && (y.op == "param" || y.op == "global" || y.op == "gconst" || (y.op == "load" && y.args[1].aux == "m0")) {
			return true
		}
		x, y = y, x
	}
	if a.op == "gconst" && b.op == "gconst" && a.nonnil && b.nonnil {
		return true // distinct errors.New values
	}
	if a.op == "iface" && b.op == "iface" && !types.Identical(a.ctyp, b.ctyp) {
		return true
	}
	if a.op == "func" && b.op == "func" {
		return true
	}
	return false
}

func isNonNil(t *Term) bool {
	if t.nonnil {
		return true
	}
	switch t.op {
	case "alloc", "global", "faddr", "iaddr", "iface", "closure", "func", "list", "makeslice", "bytes":
		return true
	case "append":
		return len(t.args) > 1 && t.args[1].op == "list" && len(t.args[1].args) > 0
	}
	return false
}

func (e *Engine) eqTerms(a, b *Term) BDD {
	if a == b && !isFloatType(a.typ) {
		return bTrue
	}
	if a.op == "lin" || b.op == "lin" || (a.typ != nil && isIntType(a.typ) && b.typ != nil && isIntType(b.typ)) {
		return e.eq0(toLin(a).add(toLin(b), -1))
	}
	if distinctTerms(a, b) {
		return bFalse
	}
	if isBoolType(a.typ) && isBoolType(b.typ) {
		x, y := e.truthT(a), e.truthT(b)
		return e.B.Ite(x, y, e.B.Not(y))
	}
	if a.op == "iface" && b.op == "iface" {
		if len(a.args) == 1 && len(b.args) == 1 {
			return e.eqTerms(a.args[0], b.args[0])
		}
	}
	// concat with a constant-length part can never be empty
	for i := 0; i < 2; i++ {
		if s, ok := b.constStr(); ok && s == "" && a.op == "concat" {
			for _, x := range a.args {
				if c, ok := x.constStr(); ok && c != "" || x.op == "itoa" {
					return bFalse
				}
			}
		}
		if s, ok := b.constStr(); ok && s == "" && a.op == "slice" && len(a.args) == 3 && isStringType(a.typ) {
			return e.eq0(toLin(a.args[2]).add(toLin(a.args[1]), -1))
		}
		if a.op == "slice" && len(a.args) == 3 && a.args[0] == b && isStringType(a.typ) && b.op != "const" && b.op != "concat" {
			// a stretch is the whole exactly when it is as long
			return e.eq0(toLin(a.args[2]).add(toLin(a.args[1]), -1).add(toLin(e.mk("len", "", types.Typ[types.Int], b)), -1))
		}
		if s, ok := b.constStr(); ok && a.op == "str" && len(e.snaps) > 0 {
			if eq, ok := e.spells(a, s); ok {
				return eq
			}
		}
		a, b = b, a
	}
	return e.eqAtom(a, b)
}

func (e *Engine) eqAtom(a, b *Term) BDD {
	if a == b {
		return bTrue
	}
	if sa, ok := a.constStr(); ok {
		if sb, ok := b.constStr(); ok {
			if sa == sb {
				return bTrue
			}
			return bFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return e.atom(e.mk("eq", "", nil, a, b))
}

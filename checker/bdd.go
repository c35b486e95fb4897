package main

// A small reduced ordered binary decision diagram over the canonical atoms of
// an analysis run. Guards of abstract states are BDDs, so joining states is a
// disjunction and no path is ever enumerated twice.

type BDD int32

const (
	bFalse BDD = 0
	bTrue  BDD = 1
)

type bnode struct {
	v      int32
	lo, hi BDD
}

type BDDs struct {
	nodes []bnode
	uniq  map[bnode]BDD
	iteC  map[[3]BDD]BDD

	// implied(v, val) lists the later atoms whose value follows from atom v
	// having value val. Nodes are kept reduced with respect to it, so guards
	// equal under these implications are the same node.
	implied func(v int32, val bool) []literal
	resC    map[resKey]BDD
	tick    func()
}

type resKey struct {
	x   BDD
	v   int32
	val bool
}

func newBDDs() *BDDs {
	b := &BDDs{uniq: map[bnode]BDD{}, iteC: map[[3]BDD]BDD{}, resC: map[resKey]BDD{}}
	b.nodes = append(b.nodes, bnode{1 << 30, 0, 0}, bnode{1 << 30, 1, 1})
	return b
}

func (b *BDDs) mk(v int32, lo, hi BDD) BDD {
	if lo == hi {
		return lo
	}
	if b.implied != nil {
		lo, hi = b.simplify(lo, v, false), b.simplify(hi, v, true)
		if lo == hi {
			return lo
		}
	}
	return b.node(v, lo, hi)
}

// simplify rewrites x for the case that atom v has value val.
func (b *BDDs) simplify(x BDD, v int32, val bool) BDD {
	if x <= bTrue {
		return x
	}
	ls := b.implied(v, val)
	if len(ls) == 0 {
		return x
	}
	k := resKey{x, v, val}
	if r, ok := b.resC[k]; ok {
		return r
	}
	set := map[int32]bool{}
	max := int32(0)
	for _, l := range ls {
		set[int32(l.atom)] = l.pos
		if int32(l.atom) > max {
			max = int32(l.atom)
		}
	}
	memo := map[BDD]BDD{}
	var rec func(x BDD) BDD
	rec = func(x BDD) BDD {
		n := b.nodes[x]
		if x <= bTrue || n.v > max {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		var r BDD
		if p, ok := set[n.v]; ok {
			if p {
				r = rec(n.hi)
			} else {
				r = rec(n.lo)
			}
		} else if lo, hi := rec(n.lo), rec(n.hi); lo == hi {
			r = lo
		} else {
			r = b.node(n.v, lo, hi)
		}
		memo[x] = r
		return r
	}
	r := rec(x)
	b.resC[k] = r
	return r
}

func (b *BDDs) node(v int32, lo, hi BDD) BDD {
	n := bnode{v, lo, hi}
	if r, ok := b.uniq[n]; ok {
		return r
	}
	if len(b.nodes) > 4_000_000 {
		panic("guard space too large")
	}
	if b.tick != nil && len(b.nodes)&0x3ff == 0 {
		b.tick()
	}
	b.nodes = append(b.nodes, n)
	r := BDD(len(b.nodes) - 1)
	b.uniq[n] = r
	return r
}

func (b *BDDs) Var(i int) BDD { return b.mk(int32(i), bFalse, bTrue) }

func (b *BDDs) Ite(f, g, h BDD) BDD {
	switch {
	case f == bTrue:
		return g
	case f == bFalse:
		return h
	case g == h:
		return g
	case g == bTrue && h == bFalse:
		return f
	}
	k := [3]BDD{f, g, h}
	if r, ok := b.iteC[k]; ok {
		return r
	}
	v := b.nodes[f].v
	if w := b.nodes[g].v; w < v {
		v = w
	}
	if w := b.nodes[h].v; w < v {
		v = w
	}
	cof := func(x BDD) (BDD, BDD) {
		n := b.nodes[x]
		if n.v == v {
			return n.lo, n.hi
		}
		return x, x
	}
	f0, f1 := cof(f)
	g0, g1 := cof(g)
	h0, h1 := cof(h)
	r := b.mk(v, b.Ite(f0, g0, h0), b.Ite(f1, g1, h1))
	b.iteC[k] = r
	return r
}

func (b *BDDs) And(xs ...BDD) BDD {
	r := bTrue
	for _, x := range xs {
		r = b.Ite(r, x, bFalse)
	}
	return r
}

func (b *BDDs) Or(xs ...BDD) BDD {
	r := bFalse
	for _, x := range xs {
		r = b.Ite(r, bTrue, x)
	}
	return r
}

func (b *BDDs) Xor(x, y BDD) BDD { return b.Ite(x, b.Not(y), y) }
func (b *BDDs) Not(x BDD) BDD    { return b.Ite(x, bFalse, bTrue) }

type literal struct {
	atom int
	pos  bool
}

// Cubes calls f for each path to true; f returns false to stop.
func (b *BDDs) Cubes(x BDD, f func([]literal) bool) bool {
	var cur []literal
	var rec func(BDD) bool
	rec = func(x BDD) bool {
		if x == bFalse {
			return true
		}
		if x == bTrue {
			return f(cur)
		}
		n := b.nodes[x]
		cur = append(cur, literal{int(n.v), false})
		if !rec(n.lo) {
			return false
		}
		cur[len(cur)-1].pos = true
		if !rec(n.hi) {
			return false
		}
		cur = cur[:len(cur)-1]
		return true
	}
	return rec(x)
}

// path is one way from x to true.
func (b *BDDs) path(x BDD) []literal {
	var out []literal
	for x > bTrue {
		n := b.nodes[x]
		if n.hi != bFalse {
			out = append(out, literal{int(n.v), true})
			x = n.hi
		} else {
			out = append(out, literal{int(n.v), false})
			x = n.lo
		}
	}
	return out
}

func (b *BDDs) support(x BDD) map[int32]bool {
	in := map[int32]bool{}
	for _, v := range b.Support(x) {
		in[int32(v)] = true
	}
	return in
}

// Support lists the atoms x depends on.
func (b *BDDs) Support(x BDD) []int {
	seen := map[BDD]bool{}
	in := map[int]bool{}
	var rec func(BDD)
	rec = func(x BDD) {
		if x <= bTrue || seen[x] {
			return
		}
		seen[x] = true
		n := b.nodes[x]
		in[int(n.v)] = true
		rec(n.lo)
		rec(n.hi)
	}
	rec(x)
	var out []int
	for i := range in {
		out = append(out, i)
	}
	return out
}

// Exists removes atom a.
func (b *BDDs) Exists(x BDD, a int) BDD {
	return b.Or(b.cofactor(x, a, false), b.cofactor(x, a, true))
}

func (b *BDDs) cofactor(x BDD, a int, val bool) BDD {
	if x <= bTrue {
		return x
	}
	n := b.nodes[x]
	if int(n.v) > a {
		return x
	}
	if int(n.v) == a {
		if val {
			return n.hi
		}
		return n.lo
	}
	return b.mk(n.v, b.cofactor(n.lo, a, val), b.cofactor(n.hi, a, val))
}

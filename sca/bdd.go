package main

import "sort"

// Binary decision diagrams over opaque boolean atoms, with insertable levels.

type B int32

const (
	F  B = 0
	Tr B = 1
)

type bnode struct {
	v      int32
	lo, hi B
}

type batom struct {
	name string
	// optional description of the atom
	kind string // "eq", "bit", "parity", "col", "feat", "lin", "fresh"
	t    *Term  // eq: difference term; nonzero: term
	bits []bitRef
	lin  *Lin // "lin": e >= 0
	pos  *Lin
	from *Lin // "col": start of the range, nil for the start of the message
	sid  int
	hpos []int
}

type bitRef struct {
	t *Term
	i int
}

type bddMgr struct {
	nodes  []bnode
	uniq   map[bnode]B
	ite    map[[3]B]B
	atoms  []batom
	rank   []int64
	sorted []int32 // atoms in order
	supp   map[B][]int
}

var bm = newBDD()

func newBDD() *bddMgr {
	m := &bddMgr{uniq: map[bnode]B{}, ite: map[[3]B]B{}}
	m.nodes = []bnode{{-1, 0, 0}, {-1, 1, 1}}
	return m
}

// newAtom creates an atom placed right after atom `after` (-1: at the end).
func (m *bddMgr) newAtom(a batom, after int) int {
	id := len(m.atoms)
	m.atoms = append(m.atoms, a)
	m.rank = append(m.rank, 0)
	n := len(m.sorted)
	if after < 0 || n == 0 {
		var r int64 = 1 << 20
		if n > 0 {
			r = m.rank[m.sorted[n-1]] + 1<<20
		}
		m.rank[id] = r
		m.sorted = append(m.sorted, int32(id))
		return id
	}
	i := sort.Search(n, func(i int) bool { return m.rank[m.sorted[i]] > m.rank[after] })
	lo := m.rank[after]
	hi := lo + 1<<21
	if i < n {
		hi = m.rank[m.sorted[i]]
	}
	m.sorted = append(m.sorted, 0)
	copy(m.sorted[i+1:], m.sorted[i:])
	m.sorted[i] = int32(id)
	if hi-lo < 2 {
		for j, a := range m.sorted {
			m.rank[a] = int64(j+1) << 20
		}
	} else {
		m.rank[id] = lo + (hi-lo)/2
	}
	return id
}

func (m *bddMgr) mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	n := bnode{v, lo, hi}
	if b, ok := m.uniq[n]; ok {
		return b
	}
	m.nodes = append(m.nodes, n)
	b := B(len(m.nodes) - 1)
	m.uniq[n] = b
	return b
}

func (m *bddMgr) lit(v int) B { return m.mk(int32(v), F, Tr) }

func (m *bddMgr) rk(b B) int64 {
	if b <= 1 {
		return 1 << 62
	}
	return m.rank[m.nodes[b].v]
}

func (m *bddMgr) cof(b B, v int32) (B, B) {
	if b <= 1 || m.nodes[b].v != v {
		return b, b
	}
	return m.nodes[b].lo, m.nodes[b].hi
}

func (m *bddMgr) Ite(c, t, e B) B {
	if c == Tr {
		return t
	}
	if c == F {
		return e
	}
	if t == e {
		return t
	}
	if t == Tr && e == F {
		return c
	}
	k := [3]B{c, t, e}
	if r, ok := m.ite[k]; ok {
		return r
	}
	top := c
	if m.rk(t) < m.rk(top) {
		top = t
	}
	if m.rk(e) < m.rk(top) {
		top = e
	}
	v := m.nodes[top].v
	c0, c1 := m.cof(c, v)
	t0, t1 := m.cof(t, v)
	e0, e1 := m.cof(e, v)
	r := m.mk(v, m.Ite(c0, t0, e0), m.Ite(c1, t1, e1))
	m.ite[k] = r
	return r
}

func (a B) and(b B) B { return bm.Ite(a, b, F) }
func (a B) or(b B) B  { return bm.Ite(a, Tr, b) }
func (a B) not() B    { return bm.Ite(a, F, Tr) }
func (a B) xor(b B) B { return bm.Ite(a, b.not(), b) }
func (a B) implies(b B) bool {
	return a.and(b.not()) == F
}

// constrain is the generalised cofactor of f with respect to care set c.
func (m *bddMgr) restrict(f, c B) B {
	memo := map[[2]B]B{}
	var rec func(f, c B) B
	rec = func(f, c B) B {
		if c == Tr || f <= 1 {
			return f
		}
		if c == F {
			return f
		}
		k := [2]B{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		var r B
		if m.rk(c) < m.rk(f) {
			// variable not in f: quantify it out of the care set
			n := m.nodes[c]
			r = rec(f, n.lo.or(n.hi))
		} else {
			v := m.nodes[f].v
			c0, c1 := m.cof(c, v)
			f0, f1 := m.cof(f, v)
			switch {
			case c0 == F:
				r = rec(f1, c1)
			case c1 == F:
				r = rec(f0, c0)
			default:
				r = m.mk(v, rec(f0, c0), rec(f1, c1))
			}
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

func (m *bddMgr) support(b B) []int {
	if b <= 1 {
		return nil
	}
	if m.supp == nil {
		m.supp = map[B][]int{}
	}
	if s, ok := m.supp[b]; ok {
		return s
	}
	seen := map[B]bool{}
	vs := map[int]bool{}
	var rec func(b B)
	rec = func(b B) {
		if b <= 1 || seen[b] {
			return
		}
		seen[b] = true
		vs[int(m.nodes[b].v)] = true
		rec(m.nodes[b].lo)
		rec(m.nodes[b].hi)
	}
	rec(b)
	var out []int
	for v := range vs {
		out = append(out, v)
	}
	sort.Ints(out)
	m.supp[b] = out
	return out
}

// essential returns the atom of largest rank among those that p implies positively, or -1.
func (m *bddMgr) lastEssential(p B) int {
	best, br := -1, int64(-1)
	for _, v := range m.support(p) {
		if m.rank[v] > br && p.implies(m.lit(v)) {
			best, br = v, m.rank[v]
		}
	}
	return best
}

// subst replaces atoms by BDDs.
func (m *bddMgr) subst(b B, f func(v int) (B, bool)) B {
	memo := map[B]B{}
	var rec func(b B) B
	rec = func(b B) B {
		if b <= 1 {
			return b
		}
		if r, ok := memo[b]; ok {
			return r
		}
		n := m.nodes[b]
		c, ok := f(int(n.v))
		if !ok {
			c = m.lit(int(n.v))
		}
		r := m.Ite(c, rec(n.hi), rec(n.lo))
		memo[b] = r
		return r
	}
	return rec(b)
}

// literal returns (atom, positive, true) if b is a single literal.
func (m *bddMgr) literal(b B) (int, bool, bool) {
	if b <= 1 {
		return 0, false, false
	}
	n := m.nodes[b]
	if n.lo == F && n.hi == Tr {
		return int(n.v), true, true
	}
	if n.lo == Tr && n.hi == F {
		return int(n.v), false, true
	}
	return 0, false, false
}

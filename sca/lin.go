package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Linear integer expressions and conjunctions of linear constraints.
//
// A Lin is an exact integer expression k + sum(c*s).  A Ctx is a conjunction of
// constraints; entailment is decided by Fourier-Motzkin elimination with
// integer tightening (sound: "entailed" is only answered when the negation is
// infeasible over the integers as far as the real shadow plus gcd tightening
// can tell).

type Sym int

type symInfo struct {
	name   string
	lo, hi *big.Int // intrinsic range, nil = unbounded
	axioms []Constraint
	t      *Term // 64-bit atom of the symbol
}

var syms []*symInfo

type linTerm struct {
	s Sym
	c *big.Int
}

type Lin struct {
	k  *big.Int
	ts []linTerm
	ky string
}

type Constraint struct {
	e  *Lin
	eq bool // e == 0 instead of e >= 0
}

func (c Constraint) String() string {
	if c.eq {
		return c.e.String() + " == 0"
	}
	return c.e.String() + " >= 0"
}

var (
	big0 = big.NewInt(0)
	big1 = big.NewInt(1)
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

func newSym(name string, lo, hi *big.Int) Sym {
	syms = append(syms, &symInfo{name: fmt.Sprintf("%s#%d", name, len(syms)), lo: lo, hi: hi})
	return Sym(len(syms) - 1)
}

func (s Sym) lin() *Lin { return mkLin(big0, []linTerm{{s, big1}}) }

var smallLin [600]*Lin

func mkLin(k *big.Int, ts []linTerm) *Lin {
	return &Lin{k: k, ts: ts}
}

func linC(v int64) *Lin {
	if v >= -64 && v < 536 {
		if l := smallLin[v+64]; l != nil {
			return l
		}
		l := &Lin{k: big.NewInt(v)}
		smallLin[v+64] = l
		return l
	}
	return &Lin{k: big.NewInt(v)}
}
func linBig(v *big.Int) *Lin { return &Lin{k: v} }
func linU(v uint64) *Lin     { return &Lin{k: new(big.Int).SetUint64(v)} }

func (a *Lin) isConst() bool { return len(a.ts) == 0 }
func (a *Lin) int() (int64, bool) {
	if len(a.ts) == 0 && a.k.IsInt64() {
		return a.k.Int64(), true
	}
	return 0, false
}

func (a *Lin) add(b *Lin) *Lin { return a.addMul(b, big1) }
func (a *Lin) sub(b *Lin) *Lin { return a.addMul(b, bigM1) }

var bigM1 = big.NewInt(-1)

func (a *Lin) addC(v int64) *Lin {
	if v == 0 {
		return a
	}
	return &Lin{k: new(big.Int).Add(a.k, big.NewInt(v)), ts: a.ts}
}

func (a *Lin) addMul(b *Lin, m *big.Int) *Lin {
	if len(b.ts) == 0 {
		if b.k.Sign() == 0 {
			return a
		}
		return &Lin{k: new(big.Int).Add(a.k, new(big.Int).Mul(b.k, m)), ts: a.ts}
	}
	k := new(big.Int).Add(a.k, new(big.Int).Mul(b.k, m))
	out := make([]linTerm, 0, len(a.ts)+len(b.ts))
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || i < len(a.ts) && a.ts[i].s < b.ts[j].s:
			out = append(out, a.ts[i])
			i++
		case i >= len(a.ts) || b.ts[j].s < a.ts[i].s:
			c := new(big.Int).Mul(b.ts[j].c, m)
			if c.Sign() != 0 {
				out = append(out, linTerm{b.ts[j].s, c})
			}
			j++
		default:
			c := new(big.Int).Add(a.ts[i].c, new(big.Int).Mul(b.ts[j].c, m))
			if c.Sign() != 0 {
				out = append(out, linTerm{a.ts[i].s, c})
			}
			i++
			j++
		}
	}
	if len(out) == 0 {
		out = nil
	}
	return &Lin{k: k, ts: out}
}

func (a *Lin) mul(m *big.Int) *Lin {
	if m.Sign() == 0 {
		return linC(0)
	}
	ts := make([]linTerm, len(a.ts))
	for i, t := range a.ts {
		ts[i] = linTerm{t.s, new(big.Int).Mul(t.c, m)}
	}
	return &Lin{k: new(big.Int).Mul(a.k, m), ts: ts}
}
func (a *Lin) mulC(m int64) *Lin { return a.mul(big.NewInt(m)) }
func (a *Lin) neg() *Lin         { return a.mul(bigM1) }

func (a *Lin) coef(s Sym) *big.Int {
	for _, t := range a.ts {
		if t.s == s {
			return t.c
		}
	}
	return big0
}

// subst replaces s by e.
func (a *Lin) subst(s Sym, e *Lin) *Lin {
	c := a.coef(s)
	if c.Sign() == 0 {
		return a
	}
	ts := make([]linTerm, 0, len(a.ts))
	for _, t := range a.ts {
		if t.s != s {
			ts = append(ts, t)
		}
	}
	return (&Lin{k: a.k, ts: ts}).addMul(e, c)
}

func (a *Lin) key() string {
	if a.ky == "" {
		var b strings.Builder
		for _, t := range a.ts {
			fmt.Fprintf(&b, "%d*%d+", t.c, t.s)
		}
		b.WriteString(a.k.String())
		a.ky = b.String()
	}
	return a.ky
}

func (a *Lin) eq(b *Lin) bool {
	if a == b {
		return true
	}
	if len(a.ts) != len(b.ts) || a.k.Cmp(b.k) != 0 {
		return false
	}
	for i := range a.ts {
		if a.ts[i].s != b.ts[i].s || a.ts[i].c.Cmp(b.ts[i].c) != 0 {
			return false
		}
	}
	return true
}

func (a *Lin) String() string {
	var parts []string
	for _, t := range a.ts {
		n := syms[t.s].name
		if t.c.Cmp(big1) == 0 {
			parts = append(parts, n)
		} else {
			parts = append(parts, fmt.Sprintf("%s*%s", bstr(t.c), n))
		}
	}
	if a.k.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, bstr(a.k))
	}
	return strings.Join(parts, " + ")
}

func bstr(b *big.Int) string {
	if b.Cmp(pow2(64)) == 0 {
		return "2^64"
	}
	if new(big.Int).Neg(b).Cmp(pow2(64)) == 0 {
		return "-2^64"
	}
	return b.String()
}

// modC returns the residue of a modulo m if it is determined by the coefficients.
func (a *Lin) modC(m int64) (int64, bool) {
	bm := big.NewInt(m)
	for _, t := range a.ts {
		if new(big.Int).Mod(t.c, bm).Sign() != 0 {
			return 0, false
		}
	}
	return new(big.Int).Mod(a.k, bm).Int64(), true
}

// interval computes bounds from intrinsic symbol ranges.
func (a *Lin) interval() (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(a.k), new(big.Int).Set(a.k)
	for _, t := range a.ts {
		si := syms[t.s]
		l, h := si.lo, si.hi
		if t.c.Sign() < 0 {
			l, h = h, l
		}
		if lo != nil {
			if l == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(l, t.c))
			}
		}
		if hi != nil {
			if h == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(h, t.c))
			}
		}
	}
	return
}

// Ctx is an immutable conjunction of constraints.
type Ctx struct {
	cons []Constraint
	keys map[string]bool
	memo map[string]bool
	rng  map[string][2]*big.Int
	bad  int8 // 1 = known feasible, 2 = infeasible
}

var emptyCtx = &Ctx{}

func ckey(c Constraint) string {
	if c.eq {
		return "=" + c.e.key()
	}
	return c.e.key()
}

func (c *Ctx) has(k Constraint) bool { return c.keys[ckey(k)] }

func (c *Ctx) with(k Constraint) *Ctx {
	k = normCons(k)
	if k.e.isConst() {
		s := k.e.k.Sign()
		if (k.eq && s == 0) || (!k.eq && s >= 0) {
			return c
		}
		return &Ctx{cons: []Constraint{k}, bad: 2, keys: map[string]bool{ckey(k): true}}
	}
	if c.has(k) {
		return c
	}
	n := &Ctx{keys: make(map[string]bool, len(c.cons)+1)}
	n.cons = append(append(make([]Constraint, 0, len(c.cons)+1), c.cons...), k)
	for _, x := range n.cons {
		n.keys[ckey(x)] = true
	}
	if c.bad == 2 {
		n.bad = 2
	}
	return n
}

func (c *Ctx) withGE(e *Lin) *Ctx { return c.with(Constraint{e, false}) }
func (c *Ctx) withEQ(e *Lin) *Ctx { return c.with(Constraint{e, true}) }

func ctxOf(cs []Constraint) *Ctx {
	c := emptyCtx
	for _, k := range cs {
		c = c.with(k)
	}
	return c
}

func (c *Ctx) same(d *Ctx) bool {
	if c == d {
		return true
	}
	if len(c.cons) != len(d.cons) {
		return false
	}
	for k := range c.keys {
		if !d.keys[k] {
			return false
		}
	}
	return true
}

// join keeps the constraints of each side that the other side entails.
func (c *Ctx) join(d *Ctx) *Ctx {
	if c.same(d) {
		return c
	}
	out := emptyCtx
	for _, k := range c.cons {
		if d.entails(k) {
			out = out.with(k)
		}
	}
	for _, k := range d.cons {
		if c.entails(k) {
			out = out.with(k)
		}
	}
	return out
}

func (c *Ctx) feasible() bool {
	if c.bad == 0 {
		if infeasible(c.cons) {
			c.bad = 2
		} else {
			c.bad = 1
		}
	}
	return c.bad == 1
}

func (c *Ctx) entails(k Constraint) bool {
	if k.eq {
		return c.ge0(k.e) && c.ge0(k.e.neg())
	}
	return c.ge0(k.e)
}

// ge0 reports whether e >= 0 is entailed.
func (c *Ctx) ge0(e *Lin) bool {
	if e.isConst() {
		return e.k.Sign() >= 0
	}
	if lo, _ := e.interval(); lo != nil && lo.Sign() >= 0 {
		return true
	}
	key := e.key()
	if v, ok := c.memo[key]; ok {
		return v
	}
	neg := e.neg().addC(-1)
	r := c.bad == 2 || infeasible(append(append([]Constraint{}, c.cons...), Constraint{neg, false}))
	if c.memo == nil {
		c.memo = map[string]bool{}
	}
	c.memo[key] = r
	return r
}

func (c *Ctx) eq0(e *Lin) bool {
	if e.isConst() {
		return e.k.Sign() == 0
	}
	return c.ge0(e) && c.ge0(e.neg())
}

// decide returns +1 if e>=0 always, -1 if e<0 always, 0 otherwise.
func (c *Ctx) decide(e *Lin) int {
	if c.ge0(e) {
		return 1
	}
	if c.ge0(e.neg().addC(-1)) {
		return -1
	}
	return 0
}

func normCons(k Constraint) Constraint {
	if len(k.e.ts) == 0 {
		return k
	}
	g := new(big.Int)
	for _, t := range k.e.ts {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if g.Cmp(big1) == 0 {
		return k
	}
	if k.eq && new(big.Int).Mod(k.e.k, g).Sign() != 0 {
		return Constraint{linC(-1), true} // no integer solution
	}
	ts := make([]linTerm, len(k.e.ts))
	for i, t := range k.e.ts {
		ts[i] = linTerm{t.s, new(big.Int).Quo(t.c, g)}
	}
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(k.e.k, g, m) // Euclidean, g>0: floor
	return Constraint{&Lin{k: q, ts: ts}, k.eq}
}

var fmQueries int

func infeasible(in []Constraint) bool {
	fmQueries++
	// closure: intrinsic ranges and axioms of the symbols involved
	seen := map[Sym]bool{}
	var work []Constraint
	queue := append([]Constraint{}, in...)
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		k = normCons(k)
		if k.e.isConst() {
			s := k.e.k.Sign()
			if k.eq && s != 0 || !k.eq && s < 0 {
				return true
			}
			continue
		}
		work = append(work, k)
		for _, t := range k.e.ts {
			if seen[t.s] {
				continue
			}
			seen[t.s] = true
			si := syms[t.s]
			if si.lo != nil {
				queue = append(queue, Constraint{t.s.lin().sub(linBig(si.lo)), false})
			}
			if si.hi != nil {
				queue = append(queue, Constraint{linBig(si.hi).sub(t.s.lin()), false})
			}
			queue = append(queue, si.axioms...)
		}
	}
	// main loop
	for round := 0; round < 200; round++ {
		// dedupe; find opposite pairs -> equalities
		best := map[string]Constraint{}
		var order []string
		for _, k := range work {
			k = normCons(k)
			if k.e.isConst() {
				s := k.e.k.Sign()
				if k.eq && s != 0 || !k.eq && s < 0 {
					return true
				}
				continue
			}
			ck := (&Lin{k: big0, ts: k.e.ts}).key()
			if k.eq {
				ck = "=" + ck
			}
			if o, ok := best[ck]; ok {
				if k.eq {
					if o.e.k.Cmp(k.e.k) != 0 {
						return true
					}
				} else if k.e.k.Cmp(o.e.k) < 0 {
					best[ck] = k
				}
			} else {
				best[ck] = k
				order = append(order, ck)
			}
		}
		work = work[:0]
		for _, ck := range order {
			work = append(work, best[ck])
		}
		if len(work) == 0 {
			return false
		}
		if len(work) > 1500 {
			return false // give up: treat as feasible
		}
		for i := range work {
			k := work[i]
			if k.eq {
				continue
			}
			nk := (&Lin{k: big0, ts: k.e.neg().ts}).key()
			if o, ok := best[nk]; ok && !o.eq {
				s := new(big.Int).Add(o.e.k, k.e.k)
				if s.Sign() < 0 {
					return true
				}
				if s.Sign() == 0 {
					work[i].eq = true
				}
			}
		}
		// equality with a unit coefficient: substitute
		ei, ev := -1, Sym(0)
		var ec *big.Int
		for i, k := range work {
			if !k.eq {
				continue
			}
			for _, t := range k.e.ts {
				if t.c.IsInt64() && (t.c.Int64() == 1 || t.c.Int64() == -1) {
					ei, ev, ec = i, t.s, t.c
					break
				}
			}
			if ei >= 0 {
				break
			}
		}
		if ei >= 0 {
			k := work[ei]
			// ec*ev + rest = 0  ->  ev = -rest/ec
			rest := k.e.subst(ev, linC(0))
			sub := rest.neg()
			if ec.Sign() < 0 {
				sub = rest
			}
			nw := make([]Constraint, 0, len(work))
			for i, o := range work {
				if i != ei {
					nw = append(nw, Constraint{o.e.subst(ev, sub), o.eq})
				}
			}
			work = nw
			continue
		}
		// choose an inequality variable to eliminate
		type cnt struct{ p, n int }
		counts := map[Sym]*cnt{}
		for _, k := range work {
			for _, t := range k.e.ts {
				c := counts[t.s]
				if c == nil {
					c = &cnt{}
					counts[t.s] = c
				}
				if k.eq || t.c.Sign() > 0 {
					c.p++
				}
				if k.eq || t.c.Sign() < 0 {
					c.n++
				}
			}
		}
		var vs []Sym
		for v := range counts {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool {
			a, b := counts[vs[i]], counts[vs[j]]
			ca, cb := a.p*a.n-a.p-a.n, b.p*b.n-b.p-b.n
			if ca != cb {
				return ca < cb
			}
			return vs[i] < vs[j]
		})
		v := vs[0]
		var pos, neg, rest []Constraint
		for _, k := range work {
			c := k.e.coef(v)
			switch {
			case c.Sign() == 0:
				rest = append(rest, k)
			case k.eq:
				// two inequalities
				a, b := k, Constraint{k.e.neg(), false}
				a.eq = false
				if c.Sign() > 0 {
					pos, neg = append(pos, a), append(neg, b)
				} else {
					pos, neg = append(pos, b), append(neg, a)
				}
			case c.Sign() > 0:
				pos = append(pos, k)
			default:
				neg = append(neg, k)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := p.e.coef(v), new(big.Int).Neg(n.e.coef(v))
				g := new(big.Int).GCD(nil, nil, a, b)
				rest = append(rest, Constraint{p.e.mul(new(big.Int).Quo(b, g)).addMul(n.e, new(big.Int).Quo(a, g)), false})
			}
		}
		work = rest
	}
	return false
}

// divMod returns quotient and remainder of e by m>0 (floor), introducing a
// memoised quotient symbol when they are not determined.
var quotMemo = map[string]Sym{}

func linDivMod(e *Lin, m *big.Int) (q, r *Lin) {
	// split off the part divisible by m
	qk := linC(0)
	rest := linC(0)
	for _, t := range e.ts {
		d, md := new(big.Int).DivMod(t.c, m, new(big.Int))
		if d.Sign() != 0 {
			qk = qk.add(mkLin(big0, []linTerm{{t.s, d}}))
		}
		if md.Sign() != 0 {
			rest = rest.add(mkLin(big0, []linTerm{{t.s, md}}))
		}
	}
	d, md := new(big.Int).DivMod(e.k, m, new(big.Int))
	qk = qk.add(linBig(d))
	rest = rest.add(linBig(md))
	if rest.isConst() {
		return qk, rest
	}
	lo, hi := rest.interval()
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return qk, rest
	}
	key := rest.key() + "/" + m.String()
	s, ok := quotMemo[key]
	if !ok {
		var ql, qh *big.Int
		if lo != nil {
			ql = new(big.Int).Div(lo, m)
		}
		if hi != nil {
			qh = new(big.Int).Div(hi, m)
		}
		s = newSym("q"+m.String(), ql, qh)
		quotMemo[key] = s
		rr := rest.addMul(s.lin(), new(big.Int).Neg(m))
		ax := []Constraint{{rr, false}, {linBig(new(big.Int).Sub(m, big1)).sub(rr), false}}
		syms[s].axioms = ax
	}
	return qk.add(s.lin()), rest.addMul(s.lin(), new(big.Int).Neg(m))
}

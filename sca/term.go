package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// Hash-consed machine-word terms in canonical form.
//
//	poly   XOR of (mask AND product of shifted atoms): algebraic normal form,
//	       canonical for bitwise operations, shifts, rotations, concatenation
//	sum    linear combination modulo 2^w of non-sum terms
//	atom   uninterpreted value with a known set of possibly-set bits
//	bits   one decision diagram per bit (used for masks)
//	cases  disjoint guards selecting leaf terms (introduced at joins)
type tkind uint8

const (
	kPoly tkind = iota
	kSum
	kAtom
	kBits
	kCases
)

type Factor struct {
	a  *Term
	sh int
}
type Mono struct {
	mask uint64
	fs   []Factor
}
type Addend struct {
	c uint64
	t *Term
}
type Case struct {
	g B
	t *Term
}

type Term struct {
	id    int
	kind  tkind
	w     int // sum, bits
	monos []Mono
	adds  []Addend
	k     uint64
	bits  []B
	cases []Case
	sup   uint64
	// atom payload
	name    string
	sym     Sym
	isSym   bool
	bitwise bool // zero tests expand into bit literals
	hj      int  // chaining word index, -1 otherwise
	stream  *Stream
	off     *Lin
	args    []*Term
	undef   bool // contains an uninitialised value
	hpos    []int
	pos     Loc // where it was first built
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	curPos   Loc
	curPred  B = Tr
	orDecomp   = map[int][2]*Term{}
)

func wmask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	t.id = len(termList)
	t.pos = curPos
	termList = append(termList, t)
	termTab[key] = t
	return t
}

func unionInts(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
			}
		}
		if same {
			return a
		}
	}
	m := map[int]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	var out []int
	for x := range m {
		out = append(out, x)
	}
	sort.Ints(out)
	return out
}

// ---- constants and atoms

func tC(v uint64) *Term {
	if v == 0 {
		return mkPoly(nil)
	}
	return mkPoly([]Mono{{v, nil}})
}

func (t *Term) isConst() (uint64, bool) {
	if t.kind == kPoly {
		if len(t.monos) == 0 {
			return 0, true
		}
		if len(t.monos) == 1 && len(t.monos[0].fs) == 0 {
			return t.monos[0].mask, true
		}
	}
	return 0, false
}

func mkAtom(name string, sup uint64, f func(*Term)) *Term {
	return intern("A"+name, func() *Term {
		t := &Term{kind: kAtom, name: name, sup: sup, hj: -1}
		if f != nil {
			f(t)
		}
		return t
	})
}

var freshN int

func freshAtom(name string, w int) *Term {
	freshN++
	return mkAtom(fmt.Sprintf("%s!%d", name, freshN), wmask(w), nil)
}

func uf(name string, w int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(name)
	b.WriteByte('(')
	for _, a := range args {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	b.WriteByte(')')
	return mkAtom(b.String(), wmask(w), func(t *Term) {
		t.args = args
		for _, a := range args {
			t.hpos = unionInts(t.hpos, a.hpos)
			t.undef = t.undef || a.undef
		}
	})
}

func symTerm(s Sym) *Term {
	si := syms[s]
	if si.t == nil {
		sup := ^uint64(0)
		if si.lo != nil && si.lo.Sign() >= 0 && si.hi != nil && si.hi.IsUint64() {
			sup = wmask(bits.Len64(si.hi.Uint64()))
		}
		si.t = mkAtom(fmt.Sprintf("sym%d", s), sup, func(t *Term) { t.sym = s; t.isSym = true })
	}
	return si.t
}

// linTerm64 is the value of l modulo 2^w.
func linToTerm(w int, l *Lin) *Term {
	var as []Addend
	m := pow2(64)
	for _, t := range l.ts {
		c := new(big.Int).Mod(t.c, m).Uint64()
		if c&wmask(w) != 0 {
			as = append(as, Addend{c, tTrunc(w, symTerm(t.s))})
		}
	}
	return mkSum(w, as, new(big.Int).Mod(l.k, m).Uint64())
}

// termToLin interprets an (unsigned) term as an exact linear expression modulo
// 2^w; ok is false if it is not linear in integer symbols. The result is only
// congruent modulo 2^w.
func termToLin(w int, t *Term) (*Lin, bool) {
	if c, ok := t.isConst(); ok {
		return linU(c), true
	}
	switch t.kind {
	case kAtom:
		if t.isSym {
			return t.sym.lin(), true
		}
	case kPoly:
		if len(t.monos) == 1 && len(t.monos[0].fs) == 1 {
			m := t.monos[0]
			f := m.fs[0]
			if f.a.isSym && f.sh >= 0 && m.mask == (f.a.sup<<uint(f.sh))&wmask(w) {
				return f.a.sym.lin().mul(pow2(f.sh)), true
			}
		}
		// bitwise union of disjoint symbols
		l := linC(0)
		var used uint64
		for _, m := range t.monos {
			if used&m.mask != 0 {
				return nil, false
			}
			used |= m.mask
			if len(m.fs) == 0 {
				l = l.add(linU(m.mask))
				continue
			}
			f := m.fs[0]
			if len(m.fs) > 1 || !f.a.isSym || f.sh < 0 || m.mask != (f.a.sup<<uint(f.sh))&wmask(w) {
				return nil, false
			}
			l = l.add(f.a.sym.lin().mul(pow2(f.sh)))
		}
		return l, true
	case kSum:
		if t.w != w {
			return nil, false
		}
		l := linC(0)
		for _, a := range t.adds {
			x, ok := termToLin(w, a.t)
			if !ok {
				return nil, false
			}
			c := new(big.Int).SetUint64(a.c)
			if a.c>>uint(w-1) != 0 {
				c.Sub(c, pow2(w))
			}
			l = l.addMul(x, c)
		}
		k := new(big.Int).SetUint64(t.k)
		if t.k>>uint(w-1) != 0 {
			k.Sub(k, pow2(w))
		}
		return l.add(linBig(k)), true
	}
	return nil, false
}

// ---- poly

func cmpF(a, b []Factor) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	for i := range a {
		if a[i].a.id != b[i].a.id {
			return a[i].a.id - b[i].a.id
		}
		if a[i].sh != b[i].sh {
			return a[i].sh - b[i].sh
		}
	}
	return 0
}

func mkPoly(ms []Mono) *Term {
	if len(ms) == 1 && len(ms[0].fs) == 1 && ms[0].fs[0].sh == 0 && ms[0].mask == ms[0].fs[0].a.sup {
		return ms[0].fs[0].a
	}
	key := make([]byte, 1, 1+len(ms)*24)
	key[0] = 'P'
	for _, m := range ms {
		key = binary.LittleEndian.AppendUint64(key, m.mask)
		key = append(key, byte(len(m.fs)))
		for _, f := range m.fs {
			key = binary.LittleEndian.AppendUint32(key, uint32(f.a.id))
			key = append(key, byte(f.sh+64))
		}
	}
	return intern(string(key), func() *Term {
		t := &Term{kind: kPoly, monos: ms, hj: -1}
		for _, m := range ms {
			t.sup |= m.mask
			for _, f := range m.fs {
				t.hpos = unionInts(t.hpos, f.a.hpos)
				t.undef = t.undef || f.a.undef
			}
		}
		return t
	})
}

func polyOf(t *Term) []Mono {
	if t.kind == kPoly {
		return t.monos
	}
	return []Mono{{t.sup, []Factor{{t, 0}}}}
}

func xorMonos(a, b []Mono) []Mono {
	out := make([]Mono, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) {
			out = append(out, a[i])
			i++
			continue
		}
		if i >= len(a) {
			out = append(out, b[j])
			j++
			continue
		}
		c := cmpF(a[i].fs, b[j].fs)
		switch {
		case c < 0:
			out = append(out, a[i])
			i++
		case c > 0:
			out = append(out, b[j])
			j++
		default:
			if m := a[i].mask ^ b[j].mask; m != 0 {
				out = append(out, Mono{m, a[i].fs})
			}
			i++
			j++
		}
	}
	return out
}

func sortMonos(ms []Mono) []Mono {
	sort.Slice(ms, func(i, j int) bool { return cmpF(ms[i].fs, ms[j].fs) < 0 })
	out := ms[:0]
	for _, m := range ms {
		if n := len(out); n > 0 && cmpF(out[n-1].fs, m.fs) == 0 {
			out[n-1].mask ^= m.mask
			if out[n-1].mask == 0 {
				out = out[:n-1]
			}
			continue
		}
		if m.mask != 0 {
			out = append(out, m)
		}
	}
	return out
}

func mulFs(a, b []Factor) []Factor {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]Factor, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) {
			out = append(out, a[i])
			i++
			continue
		}
		if i >= len(a) {
			out = append(out, b[j])
			j++
			continue
		}
		c := cmpF(a[i:i+1], b[j:j+1])
		switch {
		case c < 0:
			out = append(out, a[i])
			i++
		case c > 0:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

// ---- lifting over bits and cases

func bitsExpand(t *Term) (*Term, bool) {
	// a bits term with few distinct guards becomes cases over constants
	gs := map[B]bool{}
	for _, b := range t.bits {
		if b > 1 {
			gs[b] = true
			if len(gs) > 2 {
				return nil, false
			}
		}
	}
	var gl []B
	for g := range gs {
		gl = append(gl, g)
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i] < gl[j] })
	var cs []Case
	for m := 0; m < 1<<len(gl); m++ {
		g := Tr
		for i, x := range gl {
			if m>>i&1 == 1 {
				g = g.and(x)
			} else {
				g = g.and(x.not())
			}
		}
		if g == F {
			continue
		}
		var v uint64
		for i, b := range t.bits {
			bv := b == Tr
			for k, x := range gl {
				if b == x {
					bv = m>>k&1 == 1
				}
			}
			if bv {
				v |= 1 << uint(i)
			}
		}
		cs = append(cs, Case{g, tC(v)})
	}
	return rawCases(cs), true
}

func rawCases(cs []Case) *Term {
	key := []byte{'C'}
	for _, c := range cs {
		key = binary.LittleEndian.AppendUint32(key, uint32(c.g))
		key = binary.LittleEndian.AppendUint32(key, uint32(c.t.id))
	}
	return intern(string(key), func() *Term {
		t := &Term{kind: kCases, cases: cs, hj: -1}
		for _, c := range cs {
			t.sup |= c.t.sup
			t.hpos = unionInts(t.hpos, c.t.hpos)
			t.undef = t.undef || c.t.undef
			for _, v := range bm.support(c.g) {
				t.hpos = unionInts(t.hpos, bm.atoms[v].hpos)
			}
		}
		return t
	})
}

func mkCases(cs []Case) *Term {
	m := map[*Term]B{}
	var order []*Term
	for _, c := range cs {
		if c.g == F {
			continue
		}
		if c.t.kind == kCases {
			for _, d := range c.t.cases {
				g := c.g.and(d.g)
				if g == F {
					continue
				}
				if _, ok := m[d.t]; !ok {
					order = append(order, d.t)
				}
				m[d.t] = m[d.t].or(g)
			}
			continue
		}
		if _, ok := m[c.t]; !ok {
			order = append(order, c.t)
		}
		m[c.t] = m[c.t].or(c.g)
	}
	if len(order) == 1 {
		return order[0]
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	allc := true
	var out []Case
	w := 0
	for _, t := range order {
		out = append(out, Case{m[t], t})
		if c, ok := t.isConst(); ok {
			if l := bits.Len64(c); l > w {
				w = l
			}
		} else if t.kind == kBits {
			if len(t.bits) > w {
				w = len(t.bits)
			}
		} else {
			allc = false
		}
	}
	if allc {
		bs := make([]B, w)
		for i := range bs {
			b := F
			for _, c := range out {
				b = b.or(c.g.and(bitOf(c.t, i)))
			}
			bs[i] = b
		}
		return mkBits(bs)
	}
	return rawCases(out)
}

func tIte(c B, a, b *Term) *Term {
	if a == b || c == Tr {
		return a
	}
	if c == F {
		return b
	}
	return mkCases([]Case{{c, a}, {c.not(), b}})
}

// maskMode names the condition "some bit of a mask is set" instead of building
// its decision diagram.
var (
	maskMode bool
	anyDefs  = map[int][]B{}
)

// anyBit is the condition that one of the bits is set.
func anyBit(bs []B) B {
	var in []B
	for _, b := range bs {
		if b == Tr {
			return Tr
		}
		if b != F {
			in = append(in, b)
		}
	}
	switch len(in) {
	case 0:
		return F
	case 1:
		return in[0]
	}
	key := fmt.Sprint("any", in)
	v, ok := atomTab[key]
	if !ok {
		v = bm.newAtom(batom{kind: "any", name: key}, -1)
		atomTab[key] = v
		anyDefs[v] = in
	}
	return bm.lit(v)
}

// dropAny removes named conditions that do not matter: with q = OR of B_k and
// both cofactors of b below some B_k, b is its cofactor at q.
func dropAny(b B) B {
	for {
		again := false
		for _, v := range bm.support(b) {
			ds, ok := anyDefs[v]
			if !ok {
				continue
			}
			q := bm.lit(v)
			hi, lo := bm.restrict(b, q), bm.restrict(b, q.not())
			below := func(x B) bool {
				if x == F {
					return true
				}
				for _, d := range ds {
					if x.implies(d) {
						return true
					}
				}
				return false
			}
			if below(hi) && below(lo) {
				b, again = hi, true
				break
			}
		}
		if !again {
			return b
		}
	}
}

func mkBits(bs []B) *Term {
	if maskMode {
		bs = append([]B{}, bs...)
		for i := range bs {
			bs[i] = dropAny(bs[i])
		}
	}
	for len(bs) > 0 && bs[len(bs)-1] == F {
		bs = bs[:len(bs)-1]
	}
	var v uint64
	cst := true
	for i, b := range bs {
		if b == Tr {
			v |= 1 << uint(i)
		} else if b != F {
			cst = false
		}
	}
	if cst {
		return tC(v)
	}
	key := []byte{'B'}
	for _, b := range bs {
		key = binary.LittleEndian.AppendUint32(key, uint32(b))
	}
	bs = append([]B{}, bs...)
	return intern(string(key), func() *Term {
		t := &Term{kind: kBits, bits: bs, w: len(bs), hj: -1}
		for i, b := range bs {
			if b != F {
				t.sup |= 1 << uint(i)
			}
			for _, v := range bm.support(b) {
				t.hpos = unionInts(t.hpos, bm.atoms[v].hpos)
			}
		}
		return t
	})
}

var atomTab = map[string]int{}

// boolAtom returns the literal of a (memoised) boolean atom.
func boolAtom(key string, mk func() batom) B {
	if v, ok := atomTab[key]; ok {
		return bm.lit(v)
	}
	a := mk()
	if a.name == "" {
		a.name = key
	}
	v := bm.newAtom(a, bm.lastEssential(curPred))
	atomTab[key] = v
	return bm.lit(v)
}

func parity(refs []bitRef) B {
	sort.Slice(refs, func(i, j int) bool {
		if refs[i].t.id != refs[j].t.id {
			return refs[i].t.id < refs[j].t.id
		}
		return refs[i].i < refs[j].i
	})
	var b strings.Builder
	b.WriteString("par")
	for _, r := range refs {
		fmt.Fprintf(&b, ":%d.%d", r.t.id, r.i)
	}
	return boolAtom(b.String(), func() batom {
		a := batom{kind: "parity", bits: refs}
		var n []string
		for _, r := range refs {
			a.hpos = unionInts(a.hpos, r.t.hpos)
			n = append(n, fmt.Sprintf("%s[%d]", r.t.short(), r.i))
		}
		a.name = strings.Join(n, "^")
		return a
	})
}

// bitOf returns bit i of t as a boolean.
func bitOf(t *Term, i int) B {
	if i >= 64 || t.sup>>uint(i)&1 == 0 {
		return F
	}
	switch t.kind {
	case kBits:
		if i < len(t.bits) {
			return t.bits[i]
		}
		return F
	case kCases:
		b := F
		for _, c := range t.cases {
			b = b.or(c.g.and(bitOf(c.t, i)))
		}
		return b
	case kAtom, kSum:
		return parity([]bitRef{{t, i}})
	}
	res := F
	neg := false
	var lin []bitRef
	for _, m := range t.monos {
		if m.mask>>uint(i)&1 == 0 {
			continue
		}
		switch len(m.fs) {
		case 0:
			neg = !neg
		case 1:
			lin = append(lin, bitRef{m.fs[0].a, i - m.fs[0].sh})
		default:
			p := Tr
			for _, f := range m.fs {
				p = p.and(parity([]bitRef{{f.a, i - f.sh}}))
			}
			res = res.xor(p)
		}
	}
	if len(lin) > 0 {
		res = res.xor(parity(lin))
	}
	if neg {
		res = res.not()
	}
	return res
}

func toBits(t *Term, w int) []B {
	out := make([]B, w)
	for i := range out {
		out[i] = bitOf(t, i)
	}
	return out
}

// lift2 handles operands that are bits or cases; done is false if both are plain.
func lift2(a, b *Term, w int, f func(a, b *Term) *Term, fb func(x, y B) B) (*Term, bool) {
	if a.kind == kCases || b.kind == kCases {
		ca, cb := []Case{{Tr, a}}, []Case{{Tr, b}}
		if a.kind == kCases {
			ca = a.cases
		}
		if b.kind == kCases {
			cb = b.cases
		}
		var out []Case
		for _, x := range ca {
			for _, y := range cb {
				if g := x.g.and(y.g); g != F {
					out = append(out, Case{g, f(x.t, y.t)})
				}
			}
		}
		return mkCases(out), true
	}
	if a.kind == kBits || b.kind == kBits {
		_, ac := a.isConst()
		_, bc := b.isConst()
		if (a.kind == kBits || ac) && (b.kind == kBits || bc) && fb != nil {
			out := make([]B, w)
			for i := range out {
				out[i] = fb(bitOf(a, i), bitOf(b, i))
			}
			return mkBits(out), true
		}
		if a.kind == kBits {
			if e, ok := bitsExpand(a); ok {
				if e.kind == kCases {
					return lift2(e, b, w, f, fb)
				}
			}
		}
		if b.kind == kBits {
			if e, ok := bitsExpand(b); ok {
				if e.kind == kCases {
					return lift2(a, e, w, f, fb)
				}
			}
		}
		if fb != nil {
			out := make([]B, w)
			for i := range out {
				out[i] = fb(bitOf(a, i), bitOf(b, i))
			}
			return mkBits(out), true
		}
	}
	return nil, false
}

func lift1(a *Term, f func(a *Term) *Term) (*Term, bool) {
	if a.kind == kCases {
		var out []Case
		for _, x := range a.cases {
			out = append(out, Case{x.g, f(x.t)})
		}
		return mkCases(out), true
	}
	return nil, false
}

const polyLimit = 20000

func tXor(a, b *Term) *Term {
	if a == b {
		return tC(0)
	}
	if r, ok := lift2(a, b, 64, tXor, B.xor); ok {
		return r
	}
	return mkPoly(xorMonos(polyOf(a), polyOf(b)))
}

func tAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	ca, oka := a.isConst()
	cb, okb := b.isConst()
	if oka && okb {
		return tC(ca & cb)
	}
	if oka && ca&b.sup == b.sup {
		return b
	}
	if okb && cb&a.sup == a.sup {
		return a
	}
	if a.sup&b.sup == 0 {
		return tC(0)
	}
	if r, ok := lift2(a, b, 64, tAnd, B.and); ok {
		return r
	}
	pa, pb := polyOf(a), polyOf(b)
	if len(pa)*len(pb) > polyLimit {
		x, y := a, b
		if x.id > y.id {
			x, y = y, x
		}
		return tMaskAtom(uf("and", 64, x, y), a.sup&b.sup)
	}
	var out []Mono
	for _, x := range pa {
		for _, y := range pb {
			if m := x.mask & y.mask; m != 0 {
				out = append(out, Mono{m, mulFs(x.fs, y.fs)})
			}
		}
	}
	return mkPoly(sortMonos(out))
}

func tMaskAtom(a *Term, m uint64) *Term {
	if a.sup&m == a.sup {
		return a
	}
	return mkPoly([]Mono{{a.sup & m, []Factor{{a, 0}}}})
}

func tOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.sup&b.sup == 0 {
		r := tXor(a, b)
		if _, ok := r.isConst(); !ok && a.sup != 0 && b.sup != 0 {
			noteOr(r, a, b)
		}
		return r
	}
	if r, ok := lift2(a, b, 64, tOr, B.or); ok {
		return r
	}
	if len(polyOf(a))*len(polyOf(b)) > 3000 {
		x, y := a, b
		if x.id > y.id {
			x, y = y, x
		}
		r := tMaskAtom(uf("or", 64, x, y), a.sup|b.sup)
		noteOr(r, a, b)
		return r
	}
	r := tXor(tXor(a, b), tAnd(a, b))
	noteOr(r, a, b)
	return r
}

func noteOr(r, a, b *Term) {
	if r == a || r == b {
		return
	}
	if _, ok := orDecomp[r.id]; !ok {
		orDecomp[r.id] = [2]*Term{a, b}
	}
}

func tNot(w int, a *Term) *Term { return tXor(a, tC(wmask(w))) }

func tTrunc(w int, a *Term) *Term {
	m := wmask(w)
	if a.sup&^m == 0 {
		return a
	}
	if a.kind == kSum && a.w > w && w >= 32 {
		as := make([]Addend, len(a.adds))
		for i, x := range a.adds {
			as[i] = Addend{x.c & m, tTrunc(w, x.t)}
		}
		return mkSum(w, as, a.k&m)
	}
	return tAnd(a, tC(m))
}

func tShl(w int, a *Term, k int) *Term {
	if k == 0 {
		return tTrunc(w, a)
	}
	if k >= w {
		return tC(0)
	}
	if r, ok := lift1(a, func(x *Term) *Term { return tShl(w, x, k) }); ok {
		return r
	}
	m := wmask(w)
	if a.kind == kBits {
		out := make([]B, w)
		for i := range out {
			if i >= k {
				out[i] = bitOf(a, i-k)
			}
		}
		return mkBits(out)
	}
	var out []Mono
	for _, x := range polyOf(a) {
		if nm := (x.mask << uint(k)) & m; nm != 0 {
			out = append(out, Mono{nm, shiftFs(x.fs, k)})
		}
	}
	return mkPoly(sortMonos(out))
}

func shiftFs(fs []Factor, k int) []Factor {
	out := make([]Factor, len(fs))
	for i, f := range fs {
		out[i] = Factor{f.a, f.sh + k}
	}
	return out
}

func tShr(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= 64 {
		return tC(0)
	}
	if r, ok := lift1(a, func(x *Term) *Term { return tShr(x, k) }); ok {
		return r
	}
	if a.kind == kBits {
		if k >= len(a.bits) {
			return tC(0)
		}
		return mkBits(a.bits[k:])
	}
	var out []Mono
	for _, x := range polyOf(a) {
		if nm := x.mask >> uint(k); nm != 0 {
			out = append(out, Mono{nm, shiftFs(x.fs, -k)})
		}
	}
	return mkPoly(sortMonos(out))
}

// tSar is an arithmetic shift right of a w-bit value.
func tSar(w int, a *Term, k int) *Term {
	if k >= w {
		k = w - 1
	}
	lo := tShr(a, k)
	if a.sup>>uint(w-1)&1 == 0 {
		return lo
	}
	sb := bitOf(a, w-1)
	ext := wmask(w) &^ wmask(w-k)
	return tXor(lo, tIte(sb, tC(ext), tC(0)))
}

func tSext(from, to int, a *Term) *Term {
	if a.sup>>uint(from-1)&1 == 0 {
		return a
	}
	if c, ok := a.isConst(); ok {
		return tC((c | ^wmask(from)) & wmask(to))
	}
	sb := bitOf(a, from-1)
	return tXor(a, tIte(sb, tC(wmask(to)&^wmask(from)), tC(0)))
}

func tRotl(w int, a *Term, k int) *Term {
	k = ((k % w) + w) % w
	if k == 0 {
		return a
	}
	return tXor(tShl(w, a, k), tShr(a, w-k))
}

// ---- sums

func tAdd(w int, a, b *Term) *Term { return mkSum(w, []Addend{{1, a}, {1, b}}, 0) }
func tSub(w int, a, b *Term) *Term { return mkSum(w, []Addend{{1, a}, {wmask(w), b}}, 0) }
func tNeg(w int, a *Term) *Term    { return mkSum(w, []Addend{{wmask(w), a}}, 0) }
func tMul(w int, a, b *Term) *Term {
	if c, ok := a.isConst(); ok {
		return mkSum(w, []Addend{{c, b}}, 0)
	}
	if c, ok := b.isConst(); ok {
		return mkSum(w, []Addend{{c, a}}, 0)
	}
	if r, ok := lift2(a, b, w, func(x, y *Term) *Term { return tMul(w, x, y) }, nil); ok {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return uf(fmt.Sprintf("mul%d", w), w, a, b)
}

// product: a polynomial with a product of at least two atoms.
func product(t *Term) bool {
	if t.kind != kPoly || len(t.monos) > 8 {
		return false
	}
	for _, m := range t.monos {
		if len(m.fs) > 1 {
			return true
		}
	}
	return false
}

func mkSum(w int, in []Addend, k uint64) *Term {
	m := wmask(w)
	// distribute over cases / small bits
	for i, x := range in {
		t := x.t
		if t.kind == kBits {
			if e, ok := bitsExpand(t); ok && e.kind == kCases {
				t = e
			}
		}
		if t.kind == kCases {
			var out []Case
			for _, c := range t.cases {
				n := append([]Addend{}, in...)
				n[i] = Addend{x.c, c.t}
				out = append(out, Case{c.g, mkSum(w, n, k)})
			}
			return mkCases(out)
		}
	}
	coef := map[*Term]uint64{}
	var order []*Term
	var addT func(c uint64, t *Term)
	addT = func(c uint64, t *Term) {
		c &= m
		if c == 0 {
			return
		}
		if v, ok := t.isConst(); ok {
			k += c * v
			return
		}
		if t.kind == kSum && t.w >= w {
			k += c * t.k
			for _, a := range t.adds {
				addT(c*a.c, tTrunc(w, a.t))
			}
			return
		}
		if t.kind == kPoly {
			if len(t.monos) == 1 && len(t.monos[0].fs) == 1 {
				f := t.monos[0].fs[0]
				if f.sh > 0 && t.monos[0].mask == (f.a.sup<<uint(f.sh))&m {
					addT(c<<uint(f.sh), f.a)
					return
				}
			}
			// complement: ~x = -x - 1
			if len(t.monos[0].fs) == 0 && t.monos[0].mask == m {
				k -= c
				addT(-c, mkPoly(t.monos[1:]))
				return
			}
		}
		if t.sup&^m != 0 {
			if u := tTrunc(w, t); u != t {
				addT(c, u)
				return
			}
		}
		if _, ok := coef[t]; !ok {
			order = append(order, t)
		}
		coef[t] = (coef[t] + c) & m
	}
	for _, x := range in {
		addT(x.c, x.t)
	}
	k &= m
	var as []Addend
	for _, t := range order {
		if c := coef[t]; c != 0 {
			as = append(as, Addend{c, t})
		}
	}
	if len(as) == 0 {
		return tC(k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].t.id < as[j].t.id })
	if len(as) == 1 && as[0].c == 1 && k == 0 {
		return tTrunc(w, as[0].t)
	}
	// products without common bits: addition is XOR
	for i := 0; i < len(as); i++ {
		for j := i + 1; j < len(as); j++ {
			x, y := as[i], as[j]
			if x.c != y.c || !product(x.t) || !product(y.t) || tAnd(x.t, y.t) != tC(0) {
				continue
			}
			n := []Addend{{x.c, tXor(x.t, y.t)}}
			for l, z := range as {
				if l != i && l != j {
					n = append(n, z)
				}
			}
			return mkSum(w, n, k)
		}
	}
	// a single one-bit value plus a constant selects between two constants
	if len(as) == 1 && bits.OnesCount64(as[0].t.sup) == 1 {
		j := bits.TrailingZeros64(as[0].t.sup)
		g := bitOf(as[0].t, j)
		return tIte(g, tC((as[0].c<<uint(j)+k)&m), tC(k))
	}
	// disjoint supports: addition is XOR
	used := k
	ok := true
	for _, a := range as {
		if a.c&(a.c-1) != 0 {
			ok = false
			break
		}
		s := bits.TrailingZeros64(a.c)
		if (a.t.sup<<uint(s))>>uint(s) != a.t.sup || (a.t.sup<<uint(s))&^m != 0 {
			if len(as) == 1 && k == 0 {
				// pure left shift with truncation
				return tShl(w, a.t, s)
			}
			// truncated high part still does not overlap if masked
		}
		sp := (a.t.sup << uint(s)) & m
		if used&sp != 0 {
			ok = false
			break
		}
		used |= sp
	}
	if ok {
		r := tC(k)
		for _, a := range as {
			r = tXor(r, tShl(w, a.t, bits.TrailingZeros64(a.c)))
		}
		return r
	}
	key := make([]byte, 2, 16+len(as)*12)
	key[0], key[1] = 'S', byte(w)
	key = binary.LittleEndian.AppendUint64(key, k)
	for _, a := range as {
		key = binary.LittleEndian.AppendUint64(key, a.c)
		key = binary.LittleEndian.AppendUint32(key, uint32(a.t.id))
	}
	return intern(string(key), func() *Term {
		t := &Term{kind: kSum, w: w, adds: as, k: k, sup: m, hj: -1}
		for _, a := range as {
			t.hpos = unionInts(t.hpos, a.t.hpos)
			t.undef = t.undef || a.t.undef
		}
		return t
	})
}

// ---- predicates

// isZero returns the condition t == 0.
func isZero(t *Term) B {
	if c, ok := t.isConst(); ok {
		if c == 0 {
			return Tr
		}
		return F
	}
	switch t.kind {
	case kBits:
		if maskMode {
			return anyBit(t.bits).not()
		}
		r := Tr
		for _, b := range t.bits {
			r = r.and(b.not())
		}
		return r
	case kCases:
		r := F
		for _, c := range t.cases {
			r = r.or(c.g.and(isZero(c.t)))
		}
		return r
	}
	if d, ok := orDecomp[t.id]; ok {
		return isZero(d[0]).and(isZero(d[1]))
	}
	if t.kind == kPoly {
		if bits.OnesCount64(t.sup) == 1 {
			return bitOf(t, bits.TrailingZeros64(t.sup)).not()
		}
		all := true
		for _, m := range t.monos {
			if len(m.fs) > 1 || len(m.fs) == 1 && !m.fs[0].a.bitwise {
				all = false
			}
		}
		if all {
			r := Tr
			for s := t.sup; s != 0; s &= s - 1 {
				r = r.and(bitOf(t, bits.TrailingZeros64(s)).not())
			}
			return r
		}
		// a nonzero constant bit outside the rest's support
		if len(t.monos[0].fs) == 0 {
			var rest uint64
			for _, m := range t.monos[1:] {
				rest |= m.mask
			}
			if t.monos[0].mask&^rest != 0 {
				return F
			}
			if len(t.monos) == 2 && len(t.monos[1].fs) == 1 {
				// x ^ c == 0 on one atom
				m := t.monos[1]
				if m.mask == m.fs[0].a.sup<<uint(max(m.fs[0].sh, 0)) && m.fs[0].sh == 0 {
					w := rw(t.sup)
					return eqAtomDiff(w, mkSum(w, []Addend{{1, mkPoly(t.monos[1:])}}, -t.monos[0].mask))
				}
			}
		}
		if len(t.monos) == 2 && len(t.monos[0].fs) == 1 && len(t.monos[1].fs) == 1 {
			a, b := t.monos[0], t.monos[1]
			if a.fs[0].sh == b.fs[0].sh && a.fs[0].sh == 0 && a.mask == b.mask && a.mask == a.fs[0].a.sup && b.mask == b.fs[0].a.sup {
				w := rw(a.mask)
				return eqTerms(w, a.fs[0].a, b.fs[0].a)
			}
		}
	}
	if t.bitwise {
		r := Tr
		for s := t.sup; s != 0; s &= s - 1 {
			r = r.and(bitOf(t, bits.TrailingZeros64(s)).not())
		}
		return r
	}
	if bits.OnesCount64(t.sup) == 1 {
		return bitOf(t, bits.TrailingZeros64(t.sup)).not()
	}
	if t.kind == kSum {
		return eqAtomDiff(t.w, t)
	}
	return eqAtomDiff(rw(t.sup), t)
}

// rw rounds the width of a support up to a machine width.
func rw(sup uint64) int {
	switch n := bits.Len64(sup); {
	case n <= 8:
		return 8
	case n <= 16:
		return 16
	case n <= 32:
		return 32
	}
	return 64
}

func eqAtomDiff(w int, d *Term) B {
	if c, ok := d.isConst(); ok {
		if c == 0 {
			return Tr
		}
		return F
	}
	n := tNeg(w, d)
	if n.id < d.id {
		d = n
	}
	return boolAtom(fmt.Sprintf("zero%d", d.id), func() batom {
		return batom{kind: "eq", t: d, hpos: d.hpos, name: "zero(" + d.short() + ")"}
	})
}

// eqTerms is the condition a == b of two w-bit values.
func eqTerms(w int, a, b *Term) B {
	if a == b {
		return Tr
	}
	ca, oka := a.isConst()
	cb, okb := b.isConst()
	if oka && okb {
		if ca == cb {
			return Tr
		}
		return F
	}
	if oka && ca == 0 {
		return isZero(b)
	}
	if okb && cb == 0 {
		return isZero(a)
	}
	if a.kind == kCases || b.kind == kCases || a.kind == kBits || b.kind == kBits {
		x := tXor(a, b)
		return isZero(x)
	}
	if oka && ca&^b.sup != 0 || okb && cb&^a.sup != 0 {
		return F
	}
	// single-bit
	if bits.OnesCount64(a.sup|b.sup) == 1 {
		return isZero(tXor(a, b))
	}
	x := tXor(a, b)
	if x.kind == kPoly && len(x.monos) > 0 && len(x.monos[0].fs) == 0 {
		var rest uint64
		for _, m := range x.monos[1:] {
			rest |= m.mask
		}
		if x.monos[0].mask&^rest != 0 {
			return F
		}
	}
	if a.bitwise || b.bitwise {
		return isZero(x)
	}
	w = rw(a.sup | b.sup)
	return eqAtomDiff(w, tSub(w, a, b))
}

func bool2term(b B) *Term { return tIte(b, tC(1), tC(0)) }

// under simplifies t assuming p.
func under(t *Term, p B) *Term {
	if p == Tr {
		return t
	}
	switch t.kind {
	case kCases:
		var out []Case
		ch := false
		for _, c := range t.cases {
			g := c.g.and(p)
			if g == F {
				ch = true
				continue
			}
			out = append(out, Case{c.g, c.t})
		}
		if !ch {
			return t
		}
		if len(out) == 1 {
			return out[0].t
		}
		for i := range out {
			out[i].g = bm.restrict(out[i].g, p)
		}
		// re-disjoint: guards restricted to care set may overlap outside; keep order semantics
		used := F
		for i := range out {
			out[i].g = out[i].g.and(used.not())
			used = used.or(out[i].g)
		}
		if used != Tr {
			out[len(out)-1].g = out[len(out)-1].g.or(used.not())
		}
		return mkCases(out)
	case kBits:
		ch := false
		bs := make([]B, len(t.bits))
		for i, b := range t.bits {
			bs[i] = b
			if b > 1 {
				if p.implies(b) {
					bs[i] = Tr
					ch = true
				} else if p.and(b) == F {
					bs[i] = F
					ch = true
				}
			}
		}
		if ch {
			return mkBits(bs)
		}
	}
	return t
}

// ---- printing

func (t *Term) short() string { return t.str(2) }
func (t *Term) String() string {
	return t.str(4)
}
func (t *Term) str(d int) string {
	if c, ok := t.isConst(); ok {
		if c < 1024 {
			return fmt.Sprint(c)
		}
		return fmt.Sprintf("%#x", c)
	}
	switch t.kind {
	case kAtom:
		if t.isSym {
			return syms[t.sym].name
		}
		return t.name
	}
	if d <= 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	switch t.kind {
	case kSum:
		var ps []string
		for i, a := range t.adds {
			if i == 6 {
				ps = append(ps, "...")
				break
			}
			s := a.t.str(d - 1)
			if a.c == wmask(t.w) {
				s = "-" + s
			} else if a.c != 1 {
				s = fmt.Sprintf("%d*%s", int64(a.c), s)
			}
			ps = append(ps, s)
		}
		if t.k != 0 {
			ps = append(ps, fmt.Sprintf("%#x", t.k))
		}
		return "(" + strings.Join(ps, " + ") + ")"
	case kPoly:
		var ps []string
		for i, m := range t.monos {
			if i == 6 {
				ps = append(ps, fmt.Sprintf("...%d terms", len(t.monos)))
				break
			}
			var fs []string
			for _, f := range m.fs {
				s := f.a.str(d - 1)
				if f.sh > 0 {
					s += fmt.Sprintf("<<%d", f.sh)
				} else if f.sh < 0 {
					s += fmt.Sprintf(">>%d", -f.sh)
				}
				fs = append(fs, s)
			}
			fs = append(fs, fmt.Sprintf("%#x", m.mask))
			ps = append(ps, strings.Join(fs, "&"))
		}
		return "[" + strings.Join(ps, " ^ ") + "]"
	case kBits:
		return fmt.Sprintf("bits%d#%d", t.w, t.id)
	case kCases:
		var ps []string
		for i, c := range t.cases {
			if i == 4 {
				ps = append(ps, "...")
				break
			}
			ps = append(ps, fmt.Sprintf("b%d:%s", c.g, c.t.str(d-1)))
		}
		return "{" + strings.Join(ps, "; ") + "}"
	}
	return "?"
}

package main

import (
	"fmt"
	"math/big"
	"math/bits"
)

func rangeOf(w int, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big1)
	}
	return big0, new(big.Int).Sub(pow2(w), big1)
}

var wrapMemo = map[string]Sym{}

// fit returns a linear expression equal to l modulo 2^w and within the type's
// range, introducing a wrap-around symbol if needed.
func fit(ctx *Ctx, l *Lin, w int, signed bool) *Lin {
	lo, hi := rangeOf(w, signed)
	if l.isConst() {
		m := new(big.Int).Mod(l.k, pow2(w))
		if signed && m.Cmp(hi) > 0 {
			m.Sub(m, pow2(w))
		}
		if m.Cmp(l.k) == 0 {
			return l
		}
		return linBig(m)
	}
	a, b := l.interval()
	if (a != nil && a.Cmp(lo) >= 0 || ctx.ge0(l.sub(linBig(lo)))) && (b != nil && b.Cmp(hi) <= 0 || ctx.ge0(linBig(hi).sub(l))) {
		return l
	}
	// strip multiples of 2^w
	m := pow2(w)
	x := linC(0)
	for _, t := range l.ts {
		c := new(big.Int).Mod(t.c, m)
		if c.Cmp(pow2(w-1)) >= 0 && t.c.Sign() < 0 {
			c.Sub(c, m)
		}
		if c.Sign() != 0 {
			x = x.add(mkLin(big0, []linTerm{{t.s, c}}))
		}
	}
	x = x.add(linBig(l.k))
	if x.isConst() {
		return fit(ctx, x, w, signed)
	}
	a, b = x.interval()
	if (a != nil && a.Cmp(lo) >= 0 || ctx.ge0(x.sub(linBig(lo)))) && (b != nil && b.Cmp(hi) <= 0 || ctx.ge0(linBig(hi).sub(x))) {
		return x
	}
	key := fmt.Sprintf("%s|%d|%v", x.key(), w, signed)
	s, ok := wrapMemo[key]
	if !ok {
		var kl, kh *big.Int
		if a != nil && b != nil {
			kl = new(big.Int).Div(new(big.Int).Sub(a, lo), m)
			kh = new(big.Int).Div(new(big.Int).Sub(b, lo), m)
		}
		s = newSym("wrap", kl, kh)
		wrapMemo[key] = s
		r := x.addMul(s.lin(), new(big.Int).Neg(m))
		syms[s].axioms = []Constraint{{r.sub(linBig(lo)), false}, {linBig(hi).sub(r), false}}
	}
	return x.addMul(s.lin(), new(big.Int).Neg(m))
}

// linOf returns the exact value of n in its type, if it can be expressed linearly.
func (a *An) linOf(st *State, n Num, signed bool) (*Lin, bool) {
	if n.lin != nil {
		return n.lin, true
	}
	t := under(n.t, st.pred)
	if t.kind == kBits || t.kind == kCases {
		// constants selected by a guard: partition
		if t.kind == kBits {
			for _, b := range t.bits {
				if b > 1 {
					panic(needSplit{g: b})
				}
			}
		} else {
			allc := true
			for _, c := range t.cases {
				if _, ok := c.t.isConst(); !ok {
					if _, ok := termToLin(n.w, c.t); !ok {
						allc = false
					}
				}
			}
			if allc {
				panic(needSplit{g: t.cases[0].g})
			}
		}
		return nil, false
	}
	l, ok := termToLin(n.w, t)
	if !ok {
		return nil, false
	}
	return fit(st.ctx, l, n.w, signed), true
}

// toLin is linOf for uses that require a linear value (indexes, lengths).
func (a *An) toLin(st *State, v Value, signed bool) *Lin {
	n, ok := v.(Num)
	if !ok {
		giveUp("integer expected, found %s", vstr(v))
	}
	if l, ok := a.linOf(st, n, signed); ok {
		return l
	}
	// bounded opaque value
	t := n.term()
	if t.sup != wmask(64) || !signed {
		s := opaqueSym(t)
		return s.lin()
	}
	giveUp("integer value is not linear: %s", n)
	return nil
}

var opaqueSyms = map[int]Sym{}

// opaqueSym names the unsigned value of a non-linear term.
func opaqueSym(t *Term) Sym {
	if s, ok := opaqueSyms[t.id]; ok {
		return s
	}
	s := newSym("val", big0, new(big.Int).SetUint64(wmask(bits.Len64(t.sup))))
	opaqueSyms[t.id] = s
	return s
}

// linGE is the condition e >= 0.
func (a *An) linGE(st *State, e *Lin) B {
	switch st.ctx.decide(e) {
	case 1:
		return Tr
	case -1:
		return F
	}
	return linAtom(e)
}

func linAtom(e *Lin) B {
	c := normCons(Constraint{e, false})
	e = c.e
	neg := false
	if e.ts[0].c.Sign() < 0 {
		e = e.neg().addC(-1)
		neg = true
	}
	b := boolAtom("lin:"+e.key(), func() batom { return batom{kind: "lin", lin: e, name: e.String() + ">=0"} })
	if neg {
		return b.not()
	}
	return b
}

// resolve eliminates linear atoms from a condition, splitting the state if necessary.
func (a *An) resolve(st *State, b B) B {
	for _, v := range bm.support(b) {
		at := &bm.atoms[v]
		if at.kind != "lin" {
			continue
		}
		d := st.ctx.decide(at.lin)
		if d == 0 {
			panic(needSplit{e: at.lin})
		}
		val := F
		if d > 0 {
			val = Tr
		}
		b = bm.subst(b, func(x int) (B, bool) {
			if x == v {
				return val, true
			}
			return F, false
		})
	}
	return b
}

func isPow2Mask(c *big.Int) (int, bool) {
	// c == 2^k - 1
	d := new(big.Int).Add(c, big1)
	if c.Sign() > 0 && new(big.Int).And(d, c).Sign() == 0 {
		return d.BitLen() - 1, true
	}
	return 0, false
}

// binop on integers of width w.
func (a *An) binop(st *State, op string, x, y Num, w int, signed bool) Value {
	lx, okx := x.lin, x.lin != nil
	ly, oky := y.lin, y.lin != nil
	if !okx && x.t != nil {
		if l, ok := termToLin(x.w, x.t); ok {
			lx, okx = fit(st.ctx, l, x.w, signed), true
		}
	}
	if !oky && y.t != nil {
		if l, ok := termToLin(y.w, y.t); ok {
			ly, oky = fit(st.ctx, l, y.w, signed), true
		}
	}
	both := okx && oky
	switch op {
	case "+":
		if both {
			return numL(w, fit(st.ctx, lx.add(ly), w, signed))
		}
		return num(w, tAdd(w, x.term(), y.term()))
	case "-":
		if both {
			return numL(w, fit(st.ctx, lx.sub(ly), w, signed))
		}
		return num(w, tSub(w, x.term(), y.term()))
	case "*":
		if both && (lx.isConst() || ly.isConst()) {
			if lx.isConst() {
				lx, ly = ly, lx
			}
			return numL(w, fit(st.ctx, lx.mul(ly.k), w, signed))
		}
		return num(w, tMul(w, x.term(), y.term()))
	case "/", "%":
		if both && ly.isConst() && ly.k.Sign() > 0 && (!signed || st.ctx.ge0(lx)) {
			q, r := linDivMod(lx, ly.k)
			if op == "/" {
				n := numL(w, q)
				if ly.k.IsUint64() {
					if u := ly.k.Uint64(); u&(u-1) == 0 {
						n.t = tShr(x.term(), bits.TrailingZeros64(u))
					}
				}
				return n
			}
			n := numL(w, r)
			if u := ly.k.Uint64(); ly.k.IsUint64() && u&(u-1) == 0 {
				n.t = tAnd(x.term(), tC(u-1))
			}
			return n
		}
		if both && lx.isConst() && ly.isConst() && ly.k.Sign() != 0 {
			if op == "/" {
				return numL(w, fit(st.ctx, linBig(new(big.Int).Quo(lx.k, ly.k)), w, signed))
			}
			return numL(w, linBig(new(big.Int).Rem(lx.k, ly.k)))
		}
		if both && ly.isConst() && ly.k.Sign() > 0 && signed && st.ctx.ge0(lx.neg()) {
			q, r := linDivMod(lx.neg(), ly.k)
			if op == "/" {
				return numL(w, q.neg())
			}
			return numL(w, r.neg())
		}
		if both && ly.isConst() && ly.k.Sign() > 0 && signed && op == "%" {
			panic(needSplit{e: lx})
		}
		if c, ok := y.term().isConst(); ok && c != 0 && c&(c-1) == 0 && !signed {
			k := bits.TrailingZeros64(c)
			if op == "/" {
				return num(w, tShr(x.term(), k))
			}
			return num(w, tAnd(x.term(), tC(c-1)))
		}
		return num(w, uf("div"+op, w, x.term(), y.term()))
	case "&":
		t := tAnd(x.term(), y.term())
		if both {
			if lx.isConst() {
				lx, ly = ly, lx
			}
			if ly.isConst() {
				c := ly.k
				if c.Sign() < 0 {
					c = new(big.Int).Add(c, pow2(w))
				}
				if k, ok := isPow2Mask(c); ok {
					if k >= w {
						return Num{w: w, lin: lx, t: t}
					}
					_, r := linDivMod(lx, pow2(k))
					return Num{w: w, lin: r, t: t}
				}
				// high mask
				inv := new(big.Int).Sub(new(big.Int).Sub(pow2(w), big1), c)
				if k, ok := isPow2Mask(inv); ok {
					_, r := linDivMod(lx, pow2(k))
					return Num{w: w, lin: lx.sub(r), t: t}
				}
			}
		}
		return num(w, t)
	case "&^":
		t := tAnd(x.term(), tNot(w, y.term()))
		if both && ly.isConst() {
			if k, ok := isPow2Mask(ly.k); ok {
				_, r := linDivMod(lx, pow2(k))
				return Num{w: w, lin: lx.sub(r), t: t}
			}
		}
		return num(w, t)
	case "|":
		return num(w, tOr(x.term(), y.term()))
	case "^":
		return num(w, tXor(x.term(), y.term()))
	case "<<", ">>":
		k := int64(-1)
		if oky && ly.isConst() {
			if ly.k.Sign() < 0 {
				a.event(st, "panic", "negative shift count")
				return num(w, tC(0))
			}
			k = 1000
			if ly.k.IsInt64() {
				k = ly.k.Int64()
			}
		} else if c, ok := y.term().isConst(); ok {
			k = int64(min(c, 1000))
		}
		if k < 0 {
			if l, ok := a.linOf(st, y, signed); ok {
				if c, ok := l.int(); ok {
					k = c
				}
			}
		}
		if k < 0 {
			return num(w, uf("shift"+op, w, x.term(), y.term()))
		}
		if op == "<<" {
			if k >= int64(w) {
				return numC(w, 0)
			}
			n := num(w, tShl(w, x.term(), int(k)))
			if okx {
				n.lin = fit(st.ctx, lx.mul(pow2(int(k))), w, signed)
			}
			return n
		}
		if signed {
			if okx && st.ctx.ge0(lx) {
				q, _ := linDivMod(lx, pow2(int(min(k, 200))))
				return Num{w: w, lin: q, t: tShr(x.term(), int(min(k, 64)))}
			}
			if okx && lx.isConst() {
				return numL(w, linBig(new(big.Int).Rsh(lx.k, uint(min(k, 200)))))
			}
			return num(w, tSar(w, x.term(), int(min(k, 1000))))
		}
		n := num(w, tShr(x.term(), int(min(k, 64))))
		if okx {
			q, _ := linDivMod(lx, pow2(int(min(k, 200))))
			n.lin = q
		}
		return n
	}
	giveUp("operator %s", op)
	return nil
}

// cmp compares integers; op is one of == != < <= > >=.
func (a *An) cmp(st *State, op string, x, y Num, w int, signed bool) B {
	switch op {
	case ">":
		return a.cmp(st, "<", y, x, w, signed)
	case ">=":
		return a.cmp(st, "<", x, y, w, signed).not()
	case "<=":
		return a.cmp(st, "<", y, x, w, signed).not()
	case "!=":
		return a.cmp(st, "==", x, y, w, signed).not()
	}
	lin := func(n Num) (*Lin, bool) {
		if n.lin != nil {
			return n.lin, true
		}
		if l, ok := termToLin(n.w, n.t); ok {
			return fit(st.ctx, l, n.w, signed), true
		}
		return nil, false
	}
	lx, okx := lin(x)
	ly, oky := lin(y)
	if okx && oky {
		if op == "==" {
			e := lx.sub(ly)
			if st.ctx.eq0(e) {
				return Tr
			}
			return a.linGE(st, e).and(a.linGE(st, e.neg()))
		}
		return a.linGE(st, ly.sub(lx).addC(-1))
	}
	tx, ty := under(x.term(), st.pred), under(y.term(), st.pred)
	if op == "==" {
		return eqTerms(w, tx, ty)
	}
	return termLess(w, signed, tx, ty)
}

func termLess(w int, signed bool, x, y *Term) B {
	if x == y {
		return F
	}
	cx, okx := x.isConst()
	cy, oky := y.isConst()
	if okx && oky {
		if signed {
			sx, sy := int64(cx<<(64-uint(w)))>>(64-uint(w)), int64(cy<<(64-uint(w)))>>(64-uint(w))
			if sx < sy {
				return Tr
			}
			return F
		}
		if cx < cy {
			return Tr
		}
		return F
	}
	for _, p := range []struct {
		t     *Term
		first bool
	}{{x, true}, {y, false}} {
		t := p.t
		if t.kind == kBits {
			if e, ok := bitsExpand(t); ok {
				t = e
			}
		}
		if t.kind == kCases {
			r := F
			for _, c := range t.cases {
				if p.first {
					r = r.or(c.g.and(termLess(w, signed, c.t, y)))
				} else {
					r = r.or(c.g.and(termLess(w, signed, x, c.t)))
				}
			}
			return r
		}
	}
	if !signed {
		if oky && cy == 0 {
			return F
		}
		if okx && cx == 0 {
			return isZero(y).not()
		}
		if oky && cy == 1 {
			return isZero(x)
		}
		if oky && cy > x.sup {
			return Tr
		}
		if oky && cy&(cy-1) == 0 { // x < 2^k
			return isZero(tShr(x, bits.TrailingZeros64(cy)))
		}
		if okx && (cx+1)&cx == 0 { // 2^k-1 < y
			return isZero(tShr(y, bits.TrailingZeros64(cx+1))).not()
		}
	} else {
		if oky && cy == 0 {
			return bitOf(x, w-1)
		}
		if okx && cx == wmask(w) { // -1 < y
			return bitOf(y, w-1).not()
		}
		if okx && cx == 0 { // 0 < y
			return bitOf(y, w-1).not().and(isZero(y).not())
		}
		if oky && cy == 1 {
			return bitOf(x, w-1).or(isZero(x))
		}
	}
	return boolAtom(fmt.Sprintf("less%d%v:%d:%d", w, signed, x.id, y.id), func() batom {
		return batom{kind: "less", hpos: unionInts(x.hpos, y.hpos), name: x.short() + "<" + y.short()}
	})
}

// convert between integer types.
func (a *An) convInt(st *State, x Num, w1 int, s1 bool, w2 int, s2 bool) Num {
	if x.lin != nil {
		l := fit(st.ctx, x.lin, w2, s2)
		n := Num{w: w2, lin: l}
		if x.t != nil {
			switch {
			case w2 <= w1:
				n.t = tTrunc(w2, x.t)
			case !s1:
				n.t = x.t
			}
		} else if w2 < 32 && !l.eq(x.lin) {
			n.t = tTrunc(w2, x.term())
		}
		return n
	}
	if w2 < w1 {
		return num(w2, tTrunc(w2, x.t))
	}
	if w2 > w1 && s1 {
		return num(w2, tSext(w1, w2, x.t))
	}
	return num(w2, x.t)
}

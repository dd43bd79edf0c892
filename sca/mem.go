package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// ---- values

type Value interface{}

// Num is an integer of width w. lin, if set, is its exact value (in the signed
// or unsigned range of its type); t is its value modulo 2^w.
type Num struct {
	w   int
	lin *Lin
	t   *Term
}

type Bool struct{ b B }

type Ptr struct {
	obj ObjID // 0 = nil
	off *Lin
}
type SliceV struct {
	p        Ptr
	len, cap *Lin
}
type StrV struct {
	p   Ptr
	len *Lin
}
type Iface struct {
	typ types.Type // nil: nil interface (unless opaque)
	v   Value
	op  string // opaque non-nil dynamic value
}
type FuncV struct {
	fn    any // *ssa.Function or C function name
	binds []Value
}
type Tuple []Value

// Agg is a by-value struct or array: segments relative to offset 0.
type Agg struct {
	size int64
	segs []Seg
}
type TopV struct{ why string }

// Vec is a 128-bit vector register: four 32-bit lanes (lane 0 = least significant).
type Vec [4]*Term

func num(w int, t *Term) Num   { return Num{w: w, t: t} }
func numL(w int, l *Lin) Num   { return Num{w: w, lin: l} }
func numC(w int, v int64) Num  { return Num{w: w, lin: linC(v)} }
func numU(w int, v uint64) Num { return Num{w: w, lin: linU(v)} }

func (n Num) term() *Term {
	if n.t != nil {
		return n.t
	}
	return linToTerm(n.w, n.lin)
}

func (n Num) String() string {
	if n.lin != nil {
		return n.lin.String()
	}
	return n.t.String()
}

func (p Ptr) nil() bool { return p.obj == 0 }

func vstr(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case Num:
		return v.String()
	case Bool:
		switch v.b {
		case Tr:
			return "true"
		case F:
			return "false"
		}
		return fmt.Sprintf("cond%d", v.b)
	case Ptr:
		if v.nil() {
			return "nil"
		}
		return fmt.Sprintf("&obj%d+%s", v.obj, v.off)
	case SliceV:
		return fmt.Sprintf("slice(%s,len=%s,cap=%s)", vstr(v.p), v.len, v.cap)
	case StrV:
		return fmt.Sprintf("string(%s,len=%s)", vstr(v.p), v.len)
	case Agg:
		return fmt.Sprintf("agg[%d]{%s}", v.size, segStr(v.segs))
	case TopV:
		return "unknown(" + v.why + ")"
	case Iface:
		if v.op != "" {
			return "iface<" + v.op + ">"
		}
		if v.typ == nil {
			return "nil-iface"
		}
		return "iface(" + v.typ.String() + ")"
	}
	return fmt.Sprintf("%T%v", v, v)
}

// ---- streams: symbolic byte sequences

type Stream struct {
	name    string
	data    []byte // constant contents, if known
	bitwise bool   // comparisons are decided bit by bit
}

func (s *Stream) byteAt(off *Lin) *Term {
	if s.data != nil {
		if o, ok := off.int(); ok && o >= 0 && o < int64(len(s.data)) {
			return tC(uint64(s.data[o]))
		}
	}
	if r, ok := off.modC(4); ok && s.data == nil {
		w := s.word(off.addC(-r))
		t := tAnd(tShr(w, int(24-8*r)), tC(0xff))
		byteTab[t] = cSrc{s, off}
		return t
	}
	t := mkAtom(fmt.Sprintf("%s[%s]", s.name, off.key()), 0xff, func(t *Term) { t.stream = s; t.off = off; t.bitwise = s.bitwise })
	if s.data == nil {
		byteTab[t] = cSrc{s, off}
	}
	return t
}

// byteTab tells which stream byte a term is.
var byteTab = map[*Term]cSrc{}

// word is the big-endian 32-bit word at off.
func (s *Stream) word(off *Lin) *Term {
	return mkAtom(fmt.Sprintf("%s.w[%s]", s.name, off.key()), 0xffffffff, func(t *Term) { t.stream = s; t.off = off; t.bitwise = s.bitwise })
}

// ---- memory

type ObjID int

type Content interface{}
type cCell struct{ v Value }
type cZero struct{}
type cSrc struct {
	s   *Stream
	off *Lin
}
type cUndef struct{}
type cTop struct{ why string }

// cLazy is a 32-bit word that depends on a condition, in memory that is rarely
// read again; the value is computed when it is.
type cLazy struct{ z *lazyWord }

type lazyWord struct {
	g    B
	x, y Content // cells of 32-bit integers or lazy words
	t    *Term
}

type lazyKey struct {
	g    B
	x, y any
}

var lazyTab = map[lazyKey]*lazyWord{}

func lazyPart(c Content) (any, bool) {
	switch c := c.(type) {
	case cLazy:
		return c.z, true
	case cCell:
		if n, ok := c.v.(Num); ok && n.w == 32 && (n.lin == nil || n.lin.isConst()) {
			return n.term(), true
		}
	}
	return nil, false
}

func mkLazy(g B, x, y Content) (Content, bool) {
	px, ok1 := lazyPart(x)
	py, ok2 := lazyPart(y)
	if !ok1 || !ok2 {
		return nil, false
	}
	k := lazyKey{g, px, py}
	z := lazyTab[k]
	if z == nil {
		z = &lazyWord{g: g, x: x, y: y}
		lazyTab[k] = z
	}
	return cLazy{z}, true
}

func (z *lazyWord) term() *Term {
	if z.t == nil {
		v := func(c Content) *Term {
			if l, ok := c.(cLazy); ok {
				return l.z.term()
			}
			return c.(cCell).v.(Num).term()
		}
		z.t = tIte(z.g, v(z.x), v(z.y))
	}
	return z.t
}

// forced computes the value of a lazy word.
func forced(c Content) Content {
	if l, ok := c.(cLazy); ok {
		return cCell{num(32, l.z.term())}
	}
	return c
}

type Seg struct {
	lo, hi *Lin
	c      Content
}

type ObjMeta struct {
	name   string
	kind   string // global, heap, stack, input, const, frame
	ro     bool   // writes are violations
	global bool
	self   bool   // the hash in a call that should only read it
	label  string // where allocated
}

type Obj struct {
	meta *ObjMeta
	size *Lin
	segs []Seg
}

func segStr(ss []Seg) string {
	var out []string
	for i, s := range ss {
		if i > 12 {
			out = append(out, "...")
			break
		}
		var c string
		switch x := s.c.(type) {
		case cCell:
			c = vstr(x.v)
		case cZero:
			c = "0"
		case cSrc:
			c = fmt.Sprintf("%s[%s..]", x.s.name, x.off)
		case cUndef:
			c = "undef"
		case cTop:
			c = "unknown"
		}
		if len(c) > 80 {
			c = c[:80] + "…"
		}
		out = append(out, fmt.Sprintf("[%s,%s)=%s", s.lo, s.hi, c))
	}
	return strings.Join(out, " ")
}

// needSplit asks the engine to partition the state on e >= 0 (or on a guard).
type needSplit struct {
	e *Lin
	g B
}

type undecided struct{ msg string }

func giveUp(format string, a ...any) { panic(undecided{fmt.Sprintf(format, a...)}) }

// valSize is the size in bytes of a scalar value.
func (a *An) valSize(v Value) int64 {
	switch v := v.(type) {
	case Num:
		return int64(v.w / 8)
	case Bool:
		return 1
	case Ptr, FuncV:
		return a.psz
	case SliceV:
		return 3 * a.psz
	case StrV, Iface:
		return 2 * a.psz
	case Agg:
		return v.size
	case Vec:
		return 16
	}
	return -1
}

// cut returns segs with a boundary at `at` and the index of the first segment at or after it.
func (a *An) cut(ctx *Ctx, segs []Seg, at *Lin) ([]Seg, int) {
	if c, ok := at.int(); ok {
		// fast path while boundaries are constant
		for i := range segs {
			lo, ok1 := segs[i].lo.int()
			hi, ok2 := segs[i].hi.int()
			if !ok1 || !ok2 {
				break
			}
			if lo >= c {
				return segs, i
			}
			if hi > c {
				return a.splitSeg(segs, i, at)
			}
		}
	}
	for i := range segs {
		s := segs[i]
		if ctx.ge0(s.lo.sub(at)) {
			return segs, i
		}
		if ctx.ge0(at.sub(s.hi)) {
			continue
		}
		if ctx.ge0(at.sub(s.lo).addC(-1)) && ctx.ge0(s.hi.sub(at).addC(-1)) {
			return a.splitSeg(segs, i, at)
		}
		if ctx.decide(at.sub(s.hi)) == 0 {
			panic(needSplit{e: at.sub(s.hi)})
		}
		panic(needSplit{e: s.lo.sub(at)})
	}
	return segs, len(segs)
}

func (a *An) splitSeg(segs []Seg, i int, at *Lin) ([]Seg, int) {
	s := segs[i]
	s.c = forced(s.c)
	var parts []Seg
	switch c := s.c.(type) {
	case cZero, cUndef, cTop:
		parts = []Seg{{s.lo, at, c}, {at, s.hi, c}}
	case cSrc:
		parts = []Seg{{s.lo, at, c}, {at, s.hi, cSrc{c.s, c.off.add(at.sub(s.lo))}}}
	case cCell:
		parts = a.explode(s)
		if len(parts) < 2 {
			giveUp("access splits a value of type %T", c.v)
		}
	}
	out := make([]Seg, 0, len(segs)+len(parts))
	out = append(out, segs[:i]...)
	out = append(out, parts...)
	out = append(out, segs[i+1:]...)
	if _, ok := s.c.(cCell); ok {
		return a.cut(emptyCtx, out, at)
	}
	return out, i + 1
}

// explode breaks a cell into smaller cells (bytes for integers).
func (a *An) explode(s Seg) []Seg {
	c := s.c.(cCell)
	var out []Seg
	add := func(off, n int64, v Value) {
		out = append(out, Seg{s.lo.addC(off), s.lo.addC(off + n), cCell{v}})
	}
	switch v := c.v.(type) {
	case Num:
		t := v.term()
		for i := 0; i < v.w/8; i++ {
			add(int64(i), 1, num(8, tTrunc(8, tShr(t, 8*i))))
		}
	case SliceV:
		add(0, a.psz, v.p)
		add(a.psz, a.psz, numL(int(a.psz*8), v.len))
		add(2*a.psz, a.psz, numL(int(a.psz*8), v.cap))
	case StrV:
		add(0, a.psz, v.p)
		add(a.psz, a.psz, numL(int(a.psz*8), v.len))
	case Agg:
		for _, g := range v.segs {
			out = append(out, Seg{s.lo.add(g.lo), s.lo.add(g.hi), g.c})
		}
	case Vec:
		for i := 0; i < 4; i++ {
			add(int64(4*i), 4, num(32, v[i]))
		}
	}
	return out
}

// coalesce merges adjacent compatible segments and drops empty ones.
func coalesce(ctx *Ctx, segs []Seg) []Seg {
	out := make([]Seg, 0, len(segs))
	for _, s := range segs {
		if s.lo.eq(s.hi) {
			continue
		}
		if _, ok := s.lo.int(); !ok {
			if ctx.eq0(s.hi.sub(s.lo)) {
				continue
			}
		}
		if n := len(out); n > 0 {
			p := &out[n-1]
			switch c := s.c.(type) {
			case cZero:
				if _, ok := p.c.(cZero); ok {
					p.hi = s.hi
					continue
				}
			case cUndef:
				if _, ok := p.c.(cUndef); ok {
					p.hi = s.hi
					continue
				}
			case cTop:
				if _, ok := p.c.(cTop); ok {
					p.hi = s.hi
					continue
				}
			case cSrc:
				if q, ok := p.c.(cSrc); ok && q.s == c.s {
					d := q.off.add(s.lo.sub(p.lo)).sub(c.off)
					if d.isConst() && d.k.Sign() == 0 || !d.isConst() && ctx.eq0(d) {
						p.hi = s.hi
						continue
					}
				}
			}
		}
		out = append(out, s)
	}
	return out
}

// readSegs returns the contents of [lo,hi) rebased to 0.
func (a *An) readSegs(ctx *Ctx, o *Obj, lo, hi *Lin) []Seg {
	if cst := lo.isConst() && hi.isConst(); !cst || len(o.segs) <= 4 {
		// inside one segment: no need to know where it starts and ends
		for _, s := range o.segs {
			if _, ok := s.c.(cLazy); ok {
				continue
			}
			if _, ok := s.c.(cCell); ok || cst && s.lo.isConst() && s.hi.isConst() {
				continue
			}
			if ctx.ge0(lo.sub(s.lo)) && ctx.ge0(s.hi.sub(hi)) && ctx.ge0(hi.sub(lo).addC(-1)) {
				c := s.c
				if src, ok := c.(cSrc); ok {
					c = cSrc{src.s, src.off.add(lo.sub(s.lo))}
				}
				return []Seg{{linC(0), hi.sub(lo), c}}
			}
		}
	}
	segs, i := a.cut(ctx, o.segs, lo)
	segs, j := a.cut(ctx, segs, hi)
	if j < i {
		return nil
	}
	// cutting at hi may have shifted i if it exploded a cell containing lo; recompute
	_, i = a.cut(ctx, segs, lo)
	out := make([]Seg, 0, j-i)
	for _, s := range segs[i:j] {
		out = append(out, Seg{s.lo.sub(lo), s.hi.sub(lo), s.c})
	}
	return out
}

// writeSegs replaces [lo,hi) by the given contents (relative to lo).
func (a *An) writeSegs(ctx *Ctx, o *Obj, lo, hi *Lin, in []Seg) *Obj {
	segs, i := a.cut(ctx, o.segs, lo)
	segs, j := a.cut(ctx, segs, hi)
	_, i = a.cut(ctx, segs, lo)
	out := make([]Seg, 0, len(segs)+len(in))
	out = append(out, segs[:i]...)
	for _, s := range in {
		out = append(out, Seg{lo.add(s.lo), lo.add(s.hi), s.c})
	}
	if j < i {
		j = i
	}
	out = append(out, segs[j:]...)
	// coalescing is only worthwhile around the edit
	return &Obj{meta: o.meta, size: o.size, segs: coalesceAround(ctx, out, i, i+len(in))}
}

func coalesceAround(ctx *Ctx, segs []Seg, i, j int) []Seg {
	lo, hi := i-1, j+1
	if lo < 0 {
		lo = 0
	}
	if hi > len(segs) {
		hi = len(segs)
	}
	// pure cells need no work
	work := false
	for k := lo; k < hi; k++ {
		if _, ok := segs[k].c.(cCell); !ok {
			work = true
		}
	}
	if !work {
		return segs
	}
	mid := coalesce(ctx, segs[lo:hi])
	out := make([]Seg, 0, len(segs))
	out = append(out, segs[:lo]...)
	out = append(out, mid...)
	return append(out, segs[hi:]...)
}

// ---- typed access

type vkind struct {
	k    byte // 'n' num, 'b' bool, 'p' ptr, 's' slice, 't' string, 'i' iface, 'f' func, 'a' aggregate, 'x' other, 'v' vector
	w    int  // bits for nums
	size int64
	// element access info for aggregates
	typ types.Type
}

func (a *An) zeroOf(k vkind) Value {
	switch k.k {
	case 'n':
		return numC(k.w, 0)
	case 'b':
		return Bool{F}
	case 'p':
		return Ptr{0, linC(0)}
	case 's':
		return SliceV{Ptr{0, linC(0)}, linC(0), linC(0)}
	case 't':
		return StrV{Ptr{0, linC(0)}, linC(0)}
	case 'i':
		return Iface{}
	case 'f':
		return FuncV{}
	case 'a':
		return Agg{k.size, []Seg{{linC(0), linC(k.size), cZero{}}}}
	case 'v':
		return Vec{tC(0), tC(0), tC(0), tC(0)}
	}
	return TopV{"zero of unsupported type"}
}

func (a *An) topOf(k vkind, why string) Value {
	switch k.k {
	case 'n':
		return num(k.w, freshAtom("top("+why+")", k.w))
	case 'b':
		return Bool{freshBool("top(" + why + ")")}
	case 'a':
		return Agg{k.size, []Seg{{linC(0), linC(k.size), cTop{why}}}}
	}
	return TopV{why}
}

func freshBool(name string) B {
	freshN++
	return boolAtom(fmt.Sprintf("%s!%d", name, freshN), func() batom { return batom{kind: "fresh"} })
}

// loadSegs interprets raw contents as a value of kind k.
func (a *An) valOf(ctx *Ctx, segs []Seg, k vkind) Value {
	if k.k == 'a' {
		if len(segs) == 1 {
			if c, ok := segs[0].c.(cCell); ok {
				if g, ok := c.v.(Agg); ok && g.size == k.size {
					return g
				}
			}
		}
		return Agg{k.size, segs}
	}
	if len(segs) == 1 {
		switch c := forced(segs[0].c).(type) {
		case cZero:
			return a.zeroOf(k)
		case cTop:
			return a.topOf(k, c.why)
		case cUndef:
			if k.k == 'n' {
				t := freshAtom("undef", k.w)
				t.undef = true
				return num(k.w, t)
			}
			return TopV{"undef"}
		case cCell:
			if v, ok := a.coerce(c.v, k); ok {
				return v
			}
		}
	}
	switch k.k {
	case 'n', 'b':
		t := tC(0)
		for i := 0; i < k.w/8; i++ {
			b := a.byteOf(ctx, segs, int64(i))
			t = tXor(t, tShl(64, b, 8*i))
		}
		if k.k == 'b' {
			return Bool{isZero(t).not()}
		}
		return num(k.w, t)
	case 'v':
		var v Vec
		for l := 0; l < 4; l++ {
			t := tC(0)
			for i := 0; i < 4; i++ {
				t = tXor(t, tShl(64, a.byteOf(ctx, segs, int64(4*l+i)), 8*i))
			}
			v[l] = t
		}
		return v
	case 's':
		get := func(i int64, kk vkind) Value {
			o := &Obj{segs: segs}
			return a.valOf(ctx, a.readSegs(ctx, o, linC(i*a.psz), linC((i+1)*a.psz)), kk)
		}
		p, ok := get(0, vkind{k: 'p'}).(Ptr)
		l, ok2 := get(1, vkind{k: 'n', w: int(a.psz * 8)}).(Num)
		c, ok3 := get(2, vkind{k: 'n', w: int(a.psz * 8)}).(Num)
		if ok && ok2 && ok3 && l.lin != nil && c.lin != nil {
			return SliceV{p, l.lin, c.lin}
		}
	case 't':
		get := func(i int64, kk vkind) Value {
			o := &Obj{segs: segs}
			return a.valOf(ctx, a.readSegs(ctx, o, linC(i*a.psz), linC((i+1)*a.psz)), kk)
		}
		p, ok := get(0, vkind{k: 'p'}).(Ptr)
		l, ok2 := get(1, vkind{k: 'n', w: int(a.psz * 8)}).(Num)
		if ok && ok2 && l.lin != nil {
			return StrV{p, l.lin}
		}
	}
	return TopV{"mixed contents " + segStr(segs)}
}

func (a *An) coerce(v Value, k vkind) (Value, bool) {
	switch v := v.(type) {
	case Num:
		if k.k == 'n' && v.w == k.w {
			return v, true
		}
		if k.k == 'b' && v.w == 8 {
			return Bool{isZero(v.term()).not()}, true
		}
		if k.k == 'p' && v.w == int(a.psz*8) {
			if c, ok := v.term().isConst(); ok && c == 0 {
				return Ptr{0, linC(0)}, true
			}
		}
	case Bool:
		if k.k == 'b' {
			return v, true
		}
		if k.k == 'n' && k.w == 8 {
			return num(8, bool2term(v.b)), true
		}
	case Ptr:
		if k.k == 'p' {
			return v, true
		}
		if k.k == 'n' && v.nil() {
			return numC(k.w, 0), true
		}
		if k.k == 'n' && k.w == int(a.psz*8) {
			return v, true
		}
		if k.k == 'f' && v.nil() {
			return FuncV{}, true
		}
	case SliceV:
		return v, k.k == 's'
	case StrV:
		return v, k.k == 't'
	case Iface:
		return v, k.k == 'i'
	case FuncV:
		return v, k.k == 'f' || k.k == 'p'
	case Vec:
		return v, k.k == 'v'
	case TopV:
		return a.topOf(k, v.why), true
	}
	return nil, false
}

// byteOf returns byte i of the contents as a term.
func (a *An) byteOf(ctx *Ctx, segs []Seg, i int64) *Term {
	at := linC(i)
	for _, s := range segs {
		if !ctx.ge0(at.sub(s.lo)) || !ctx.ge0(s.hi.sub(at).addC(-1)) {
			if ctx.decide(at.sub(s.lo)) == 0 {
				panic(needSplit{e: at.sub(s.lo)})
			}
			if ctx.decide(s.hi.sub(at).addC(-1)) == 0 {
				panic(needSplit{e: s.hi.sub(at).addC(-1)})
			}
			continue
		}
		switch c := forced(s.c).(type) {
		case cZero:
			return tC(0)
		case cTop:
			return freshAtom("top("+c.why+")", 8)
		case cUndef:
			t := freshAtom("undef", 8)
			t.undef = true
			return t
		case cSrc:
			return c.s.byteAt(c.off.add(at.sub(s.lo)))
		case cCell:
			d, ok := constOf(ctx, at.sub(s.lo))
			if !ok {
				if k, isC := s.hi.sub(s.lo).int(); isC && k <= 64 {
					for d = 0; d < k && !ok; {
						if ctx.eq0(at.sub(s.lo).addC(-d)) {
							ok = true
						} else {
							d++
						}
					}
				}
			}
			if !ok {
				giveUp("byte of a cell at symbolic offset")
			}
			switch v := c.v.(type) {
			case Num:
				return tTrunc(8, tShr(v.term(), int(8*d)))
			case Bool:
				return bool2term(v.b)
			case Vec:
				return tTrunc(8, tShr(v[d/4], int(8*(d%4))))
			case Agg:
				return a.byteOf(ctx, v.segs, d)
			case Ptr:
				if v.nil() {
					return tC(0)
				}
			}
			return freshAtom(fmt.Sprintf("bytes of %T", c.v), 8)
		}
	}
	giveUp("byte %d of contents %s not found (%v)", i, segStr(segs), ctx.cons)
	return nil
}

// ---- state

type Frame struct {
	code   Code
	regs   []Value
	parent *Frame
	depth  int
	defers []Value
	key    string
}

type State struct {
	pred B
	ctx  *Ctx
	mem  map[ObjID]*Obj
	fr   *Frame
}

func (s *State) clone() *State {
	m := make(map[ObjID]*Obj, len(s.mem))
	for k, v := range s.mem {
		m[k] = v
	}
	f := *s.fr
	f.regs = append([]Value{}, s.fr.regs...)
	return &State{s.pred, s.ctx, m, &f}
}

func (s *State) feasible() bool { return s.pred != F && s.ctx.feasible() }

func (a *An) newObj(st *State, meta *ObjMeta, size *Lin, segs []Seg) ObjID {
	a.objN++
	id := ObjID(a.objN)
	st.mem[id] = &Obj{meta, size, segs}
	return id
}

func (a *An) obj(st *State, id ObjID) *Obj {
	if o, ok := st.mem[id]; ok {
		return o
	}
	if o, ok := a.base[id]; ok {
		return o
	}
	giveUp("access to dead or unknown object %d", id)
	return nil
}

// inBounds checks 0 <= off && off+n <= size and records an out-of-bounds event otherwise.
// The result is false if the access certainly reaches outside.
func (a *An) inBounds(st *State, o *Obj, off, n *Lin, what string) bool {
	if st.ctx.ge0(off) && st.ctx.ge0(o.size.sub(off).sub(n)) {
		a.cnt("bounds", 1)
		return true
	}
	a.event(st, "oob", fmt.Sprintf("%s of %s bytes at offset %s of %s (size %s) is not provably in bounds", what, n, off, o.meta.name, o.size))
	return !st.ctx.ge0(off.add(n).sub(o.size).addC(-1)) && !st.ctx.ge0(off.neg().addC(-1))
}

func (a *An) load(st *State, p Ptr, k vkind) Value {
	if p.nil() {
		a.event(st, "nil", "load through nil pointer")
		return a.topOf(k, "nil load")
	}
	o := a.obj(st, p.obj)
	n := linC(k.size)
	if !a.inBounds(st, o, p.off, n, "load") {
		return a.topOf(k, "out of bounds")
	}
	if o.meta.global && !o.meta.ro {
		a.readGlobals[o.meta.name] = curPos
	}
	if k.size == 0 {
		return a.zeroOf(k)
	}
	// exact cell fast path
	if c, ok := p.off.int(); ok {
		for i := range o.segs {
			lo, ok1 := o.segs[i].lo.int()
			if !ok1 || lo > c {
				break
			}
			if lo == c {
				if cc, ok := forced(o.segs[i].c).(cCell); ok {
					if hi, ok := o.segs[i].hi.int(); ok && hi-lo == k.size {
						if v, ok := a.coerce(cc.v, k); ok {
							return a.simp(st, v)
						}
					}
				}
				break
			}
		}
	}
	segs := a.readSegs(st.ctx, o, p.off, p.off.add(n))
	return a.simp(st, a.valOf(st.ctx, segs, k))
}

func (a *An) simp(st *State, v Value) Value {
	switch x := v.(type) {
	case Num:
		if x.t != nil && (x.t.kind == kCases || x.t.kind == kBits) {
			return Num{w: x.w, lin: x.lin, t: under(x.t, st.pred)}
		}
	case Bool:
		if x.b > 1 && st.pred != Tr {
			if st.pred.implies(x.b) {
				return Bool{Tr}
			}
			if st.pred.and(x.b) == F {
				return Bool{F}
			}
		}
	}
	return v
}

func (a *An) noteStore(st *State, o *Obj, off, n *Lin) {
	if o.meta.ro {
		a.event(st, "rostore", fmt.Sprintf("write to %s", o.meta.name))
	} else if o.meta.self && a.syncd == 0 {
		a.event(st, "selfstore", "write to the hash in a call that only reads it")
	} else if o.meta.global && a.syncd == 0 {
		a.event(st, "gstore", fmt.Sprintf("write to package-level variable %s", o.meta.name))
	}
}

func (a *An) store(st *State, p Ptr, v Value, k vkind) {
	if p.nil() {
		a.event(st, "nil", "store through nil pointer")
		return
	}
	o := a.obj(st, p.obj)
	n := linC(k.size)
	in0 := a.inBounds(st, o, p.off, n, "store")
	a.noteStore(st, o, p.off, n)
	if !in0 {
		return
	}
	if k.size == 0 {
		return
	}
	var in []Seg
	switch x := v.(type) {
	case Agg:
		in = x.segs
	case TopV:
		in = []Seg{{linC(0), n, cTop{x.why}}}
	default:
		in = []Seg{{linC(0), n, cCell{v}}}
		if x, ok := v.(Num); ok && k.size == 1 && x.t != nil {
			if c, ok := byteTab[x.t]; ok {
				in[0].c = c
			}
		}
	}
	// exact cell overwrite fast path
	if len(in) == 1 {
		if c, ok := p.off.int(); ok {
			for i := range o.segs {
				lo, ok1 := o.segs[i].lo.int()
				if !ok1 || lo > c {
					break
				}
				if lo == c {
					if hi, ok := o.segs[i].hi.int(); ok && hi-lo == k.size {
						if _, cell := in[0].c.(cCell); cell {
							ns := append([]Seg{}, o.segs...)
							ns[i].c = in[0].c
							st.mem[p.obj] = &Obj{o.meta, o.size, ns}
							return
						}
					}
					break
				}
			}
		}
	}
	st.mem[p.obj] = a.writeSegs(st.ctx, o, p.off, p.off.add(n), in)
}

// copyMem copies n bytes (memmove semantics).
func (a *An) copyMem(st *State, dst, src Ptr, n *Lin) {
	if st.ctx.eq0(n) {
		return
	}
	if dst.nil() || src.nil() {
		a.event(st, "nil", "copy through nil pointer")
		return
	}
	so, do := a.obj(st, src.obj), a.obj(st, dst.obj)
	segs := a.readSegs(st.ctx, so, src.off, src.off.add(n))
	nd := a.writeSegs(st.ctx, do, dst.off, dst.off.add(n), segs)
	a.inBounds(st, so, src.off, n, "read")
	a.inBounds(st, do, dst.off, n, "write")
	a.noteStore(st, do, dst.off, n)
	st.mem[dst.obj] = nd
}

// ---- equality, merging

func (a *An) valEq(ctx *Ctx, x, y Value) bool {
	switch x := x.(type) {
	case nil:
		return y == nil
	case Num:
		y, ok := y.(Num)
		if !ok || x.w != y.w {
			return false
		}
		if x.lin != nil && y.lin != nil {
			if x.lin.eq(y.lin) || ctx != nil && ctx.eq0(x.lin.sub(y.lin)) {
				return true
			}
			return x.t != nil && x.t == y.t
		}
		return x.term() == y.term()
	case Bool:
		y, ok := y.(Bool)
		return ok && x.b == y.b
	case Ptr:
		y, ok := y.(Ptr)
		return ok && x.obj == y.obj && (x.obj == 0 || linEq(ctx, x.off, y.off))
	case SliceV:
		y, ok := y.(SliceV)
		return ok && a.valEq(ctx, x.p, y.p) && linEq(ctx, x.len, y.len) && linEq(ctx, x.cap, y.cap)
	case StrV:
		y, ok := y.(StrV)
		return ok && a.valEq(ctx, x.p, y.p) && linEq(ctx, x.len, y.len)
	case Iface:
		y, ok := y.(Iface)
		if !ok || x.op != y.op || (x.typ == nil) != (y.typ == nil) {
			return false
		}
		if x.typ == nil {
			return true
		}
		return types.Identical(x.typ, y.typ) && a.valEq(ctx, x.v, y.v)
	case FuncV:
		y, ok := y.(FuncV)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !a.valEq(ctx, x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := y.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !a.valEq(ctx, x[i], y[i]) {
				return false
			}
		}
		return true
	case Agg:
		y, ok := y.(Agg)
		return ok && x.size == y.size && a.segsEq(ctx, x.segs, y.segs)
	case Vec:
		y, ok := y.(Vec)
		return ok && x == y
	case TopV:
		_, ok := y.(TopV)
		return ok
	}
	return false
}

func linEq(ctx *Ctx, a, b *Lin) bool {
	return a.eq(b) || ctx != nil && ctx.eq0(a.sub(b))
}

func (a *An) contEq(ctx *Ctx, x, y Content) bool {
	if lx, ok := x.(cLazy); ok {
		if ly, ok := y.(cLazy); ok && lx.z == ly.z {
			return true
		}
		x, y = forced(x), forced(y)
	} else if _, ok := y.(cLazy); ok {
		y = forced(y)
	}
	switch x := x.(type) {
	case cZero:
		_, ok := y.(cZero)
		return ok
	case cUndef:
		_, ok := y.(cUndef)
		return ok
	case cTop:
		_, ok := y.(cTop)
		return ok
	case cSrc:
		y, ok := y.(cSrc)
		return ok && x.s == y.s && linEq(ctx, x.off, y.off)
	case cCell:
		y, ok := y.(cCell)
		return ok && a.valEq(ctx, x.v, y.v)
	}
	return false
}

func (a *An) segsEq(ctx *Ctx, x, y []Seg) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !linEq(ctx, x[i].lo, y[i].lo) || !linEq(ctx, x[i].hi, y[i].hi) || !a.contEq(ctx, x[i].c, y[i].c) {
			return false
		}
	}
	return true
}

// mergeVal merges two values that hold under guard g (first) and its complement.
func (a *An) mergeVal(ctx *Ctx, g B, x, y Value) (Value, bool) {
	if a.valEq(ctx, x, y) {
		return x, true
	}
	if _, ok := x.(TopV); ok {
		return x, true
	}
	if _, ok := y.(TopV); ok {
		return y, true
	}
	switch x := x.(type) {
	case Num:
		y, ok := y.(Num)
		if !ok || x.w != y.w {
			return nil, false
		}
		if x.lin != nil && !x.lin.isConst() || y.lin != nil && !y.lin.isConst() {
			return nil, false
		}
		return num(x.w, tIte(g, x.term(), y.term())), true
	case Bool:
		y, ok := y.(Bool)
		if !ok {
			return nil, false
		}
		return Bool{bm.Ite(g, x.b, y.b)}, true
	case Tuple:
		y, ok := y.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Tuple, len(x))
		for i := range x {
			v, ok := a.mergeVal(ctx, g, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Vec:
		y, ok := y.(Vec)
		if !ok {
			return nil, false
		}
		var v Vec
		for i := range v {
			v[i] = tIte(g, x[i], y[i])
		}
		return v, true
	case Agg:
		y, ok := y.(Agg)
		if !ok || x.size != y.size {
			return nil, false
		}
		s, ok := a.mergeSegs(ctx, g, x.segs, y.segs)
		if !ok {
			return nil, false
		}
		return Agg{x.size, s}, true
	}
	return nil, false
}

func (a *An) mergeSegs(ctx *Ctx, g B, x, y []Seg) ([]Seg, bool) {
	return a.mergeSegsIn(ctx, g, x, y, nil)
}

// mergeSegsIn joins memory; words in the regions given by lazy are computed
// when they are read.
func (a *An) mergeSegsIn(ctx *Ctx, g B, x, y []Seg, lazy func(lo int64) bool) ([]Seg, bool) {
	if lazy == nil && a.segsEq(ctx, x, y) {
		return x, true
	}
	// refine both to common boundaries (constant boundaries only)
	bs := map[int64]bool{}
	collect := func(ss []Seg) bool {
		for _, s := range ss {
			lo, ok1 := s.lo.int()
			hi, ok2 := s.hi.int()
			if !ok1 || !ok2 {
				return false
			}
			bs[lo], bs[hi] = true, true
		}
		return true
	}
	if !collect(x) || !collect(y) {
		// symbolic boundaries: only mergeable if all boundaries agree
		if len(x) != len(y) {
			return nil, false
		}
		out := make([]Seg, len(x))
		for i := range x {
			if !linEq(ctx, x[i].lo, y[i].lo) || !linEq(ctx, x[i].hi, y[i].hi) {
				return nil, false
			}
			c, ok := a.mergeCont(ctx, g, x[i].c, y[i].c)
			if !ok {
				return nil, false
			}
			out[i] = Seg{x[i].lo, x[i].hi, c}
		}
		return out, true
	}
	var bl []int64
	for b := range bs {
		bl = append(bl, b)
	}
	sort.Slice(bl, func(i, j int) bool { return bl[i] < bl[j] })
	// only refine where the contents differ: walk in parallel
	var out []Seg
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		if x[i].lo.eq(y[j].lo) && x[i].hi.eq(y[j].hi) {
			if lo, _ := x[i].lo.int(); lazy != nil && lazy(lo) {
				px, ok1 := lazyPart(x[i].c)
				py, ok2 := lazyPart(y[j].c)
				if ok1 && ok2 {
					c := x[i].c
					if px != py {
						c, _ = mkLazy(g, c, y[j].c)
					}
					out = append(out, Seg{x[i].lo, x[i].hi, c})
					i++
					j++
					continue
				}
			}
			c, ok := a.mergeCont(ctx, g, x[i].c, y[j].c)
			if !ok {
				return nil, false
			}
			out = append(out, Seg{x[i].lo, x[i].hi, c})
			i++
			j++
			continue
		}
		// misaligned: cut the longer one
		xh, _ := x[i].hi.int()
		yh, _ := y[j].hi.int()
		if xh == yh {
			return nil, false
		}
		if xh > yh {
			if _, ok := x[i].c.(cCell); ok {
				// explode the zero/src side instead is impossible; explode the cell
				if len(a.explode(x[i])) < 2 {
					return nil, false
				}
			}
			x, _ = a.cut(ctx, x, y[j].hi)
		} else {
			if _, ok := y[j].c.(cCell); ok {
				if len(a.explode(y[j])) < 2 {
					return nil, false
				}
			}
			y, _ = a.cut(ctx, y, x[i].hi)
		}
	}
	if i != len(x) || j != len(y) {
		return nil, false
	}
	return coalesce(ctx, out), true
}

func (a *An) mergeCont(ctx *Ctx, g B, x, y Content) (Content, bool) {
	_, lx := x.(cLazy)
	_, ly := y.(cLazy)
	if lx || ly {
		if _, ok := x.(cTop); ok {
			return x, true
		}
		if _, ok := y.(cTop); ok {
			return y, true
		}
		x, y = forced(x), forced(y)
	}
	if a.contEq(ctx, x, y) {
		return x, true
	}
	if _, ok := x.(cTop); ok {
		return x, true
	}
	if _, ok := y.(cTop); ok {
		return y, true
	}
	cx, okx := x.(cCell)
	cy, oky := y.(cCell)
	if okx && !oky {
		if v, ok := a.asLike(y, cx.v); ok {
			cy, oky = cCell{v}, true
		}
	}
	if oky && !okx {
		if v, ok := a.asLike(x, cy.v); ok {
			cx, okx = cCell{v}, true
		}
	}
	if okx && oky {
		v, ok := a.mergeVal(ctx, g, cx.v, cy.v)
		if !ok {
			return nil, false
		}
		if t, ok := v.(TopV); ok {
			return cTop{t.why}, true
		}
		return cCell{v}, true
	}
	_, ux := x.(cUndef)
	_, uy := y.(cUndef)
	if ux || uy {
		return cTop{"possibly uninitialised"}, true
	}
	return nil, false
}

func (a *An) asLike(c Content, like Value) (Value, bool) {
	switch c := c.(type) {
	case cSrc:
		if l, ok := like.(Num); ok && l.w == 8 {
			return num(8, c.s.byteAt(c.off)), true
		}
	case cZero:
		switch l := like.(type) {
		case Num:
			return numC(l.w, 0), true
		case Bool:
			return Bool{F}, true
		case Vec:
			return Vec{tC(0), tC(0), tC(0), tC(0)}, true
		}
	case cUndef:
		return TopV{"possibly uninitialised"}, true
	}
	return nil, false
}

var maxU64 = new(big.Int).Sub(pow2(64), big1)

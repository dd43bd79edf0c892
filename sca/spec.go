package main

import "fmt"

// The reference: FIPS 180-4 compression, the 32 published disturbance vectors
// derived from their definition, and counter-cryptanalytic detection.

type DV struct {
	typ, k, b int
	testT     int
	bit       int
}

func (d DV) String() string {
	return fmt.Sprintf("%s(%d,%d)", map[int]string{1: "I", 2: "II"}[d.typ], d.k, d.b)
}

// published order; the position is the bit of the unavoidable-condition mask
var dvList = []DV{
	{1, 43, 0, 58, 0}, {1, 44, 0, 58, 1}, {1, 45, 0, 58, 2}, {1, 46, 0, 58, 3}, {1, 46, 2, 58, 4}, {1, 47, 0, 58, 5},
	{1, 47, 2, 58, 6}, {1, 48, 0, 58, 7}, {1, 48, 2, 58, 8}, {1, 49, 0, 58, 9}, {1, 49, 2, 58, 10}, {1, 50, 0, 65, 11},
	{1, 50, 2, 65, 12}, {1, 51, 0, 65, 13}, {1, 51, 2, 65, 14}, {1, 52, 0, 65, 15}, {2, 45, 0, 58, 16}, {2, 46, 0, 58, 17},
	{2, 46, 2, 58, 18}, {2, 47, 0, 58, 19}, {2, 48, 0, 58, 20}, {2, 49, 0, 58, 21}, {2, 49, 2, 58, 22}, {2, 50, 0, 65, 23},
	{2, 50, 2, 65, 24}, {2, 51, 0, 65, 25}, {2, 51, 2, 65, 26}, {2, 52, 0, 65, 27}, {2, 53, 0, 65, 28}, {2, 54, 0, 65, 29},
	{2, 55, 0, 65, 30}, {2, 56, 0, 65, 31},
}

func rl32(x uint32, n int) uint32 { return x<<uint(n) | x>>uint(32-n) }

// dwOf computes the disturbance vector DW[-5..79] (index shifted by 5).
func dwOf(d DV) []uint32 {
	w := map[int]uint32{}
	for i := 0; i < 16; i++ {
		w[d.k+i] = 0
	}
	w[d.k+15] = 1 << uint(d.b)
	if d.typ == 2 {
		w[d.k+1] = rl32(1<<uint(d.b), 31)
		w[d.k+3] = rl32(1<<uint(d.b), 31)
	}
	for t := d.k + 16; t < 80; t++ {
		w[t] = rl32(w[t-3]^w[t-8]^w[t-14]^w[t-16], 1)
	}
	for t := d.k - 1; t >= -5; t-- {
		w[t] = rl32(w[t+16], 31) ^ w[t+13] ^ w[t+8] ^ w[t+2]
	}
	out := make([]uint32, 85)
	for t := -5; t < 80; t++ {
		out[t+5] = w[t]
	}
	return out
}

// dmOf is the message difference of a disturbance vector.
func dmOf(d DV) [80]uint32 {
	w := dwOf(d)
	var dm [80]uint32
	for t := 0; t < 80; t++ {
		i := t + 5
		dm[t] = w[i] ^ rl32(w[i-1], 5) ^ w[i-2] ^ rl32(w[i-3], 30) ^ rl32(w[i-4], 30) ^ rl32(w[i-5], 30)
	}
	return dm
}

// validT: the state difference vanishes before step t.
func validT(d DV, t int) bool {
	w := dwOf(d)
	for i := t; i < t+5; i++ {
		if i < 0 || i >= len(w) || w[i] != 0 {
			return false
		}
	}
	return true
}

var sha1K = [4]uint64{0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6}
var sha1Init = [5]uint64{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}

func specF(t int, b, c, d *Term) *Term {
	switch {
	case t < 20:
		return tXor(tAnd(b, c), tAnd(tNot(32, b), d))
	case t >= 40 && t < 60:
		return tXor(tXor(tAnd(b, c), tAnd(b, d)), tAnd(c, d))
	}
	return tXor(tXor(b, c), d)
}

func specStep(t int, s [5]*Term, w *Term) [5]*Term {
	x := mkSum(32, []Addend{{1, tRotl(32, s[0], 5)}, {1, specF(t, s[1], s[2], s[3])}, {1, s[4]}, {1, w}}, sha1K[t/20])
	return [5]*Term{x, s[0], tRotl(32, s[1], 30), s[2], s[3]}
}

func specUnstep(t int, s [5]*Term, w *Term) [5]*Term {
	a, b, c, d := s[1], tRotl(32, s[2], 2), s[3], s[4]
	m := wmask(32)
	e := mkSum(32, []Addend{{1, s[0]}, {m, tRotl(32, a, 5)}, {m, specF(t, b, c, d)}, {m, w}}, -sha1K[t/20])
	return [5]*Term{a, b, c, d, e}
}

func specExpand(m [16]*Term) [80]*Term {
	var w [80]*Term
	for t := range w {
		if t < 16 {
			w[t] = m[t]
		} else {
			w[t] = tRotl(32, tXor(tXor(w[t-3], w[t-8]), tXor(w[t-14], w[t-16])), 1)
		}
	}
	return w
}

// specStates returns the working state before each step and after the last.
func specStates(h [5]*Term, w [80]*Term) [81][5]*Term {
	var s [81][5]*Term
	s[0] = h
	for t := 0; t < 80; t++ {
		s[t+1] = specStep(t, s[t], w[t])
	}
	return s
}

func specAdd(h, s [5]*Term) [5]*Term {
	var o [5]*Term
	for i := range o {
		o[i] = tAdd(32, h[i], s[i])
	}
	return o
}

func specCompress(h [5]*Term, w [80]*Term) [5]*Term {
	return specAdd(h, specStates(h, w)[80])
}

// specTwin is the output chaining value of the message-modified twin of d.
func specTwin(d DV, st [81][5]*Term, w [80]*Term) [5]*Term {
	dm := dmOf(d)
	s := st[d.testT]
	for t := d.testT - 1; t >= 0; t-- {
		s = specUnstep(t, s, tXor(w[t], tC(uint64(dm[t]))))
	}
	f := st[d.testT]
	for t := d.testT; t < 80; t++ {
		f = specStep(t, f, tXor(w[t], tC(uint64(dm[t]))))
	}
	return specAdd(s, f)
}

type specBlock struct {
	w      [80]*Term
	h1, h3 [5]*Term // after one and after three compressions
	eq     [32]B    // twin of vector i reaches the same output
	mask   *Term
	detect B
}

// specRun is the reference for one block. maskBit gives the condition that
// the unavoidable conditions of vector i hold.
func specRun(h [5]*Term, m [16]*Term, maskBit func(w [80]*Term, i int) B) *specBlock {
	s := &specBlock{}
	s.w = specExpand(m)
	st := specStates(h, s.w)
	s.h1 = specAdd(h, st[80])
	s.detect = F
	for i, d := range dvList {
		tw := specTwin(d, st, s.w)
		e := Tr
		mb := maskBit(s.w, i)
		save := curPred
		curPred = mb
		for j := 0; j < 5; j++ {
			e = e.and(eqTerms(32, tw[j], s.h1[j]))
		}
		curPred = save
		s.eq[i] = e
		s.detect = s.detect.or(mb.and(e))
	}
	s.h3 = specCompress(specCompress(s.h1, s.w), s.w)
	return s
}

// dvmaskUF is the unavoidable-condition mask as an uninterpreted function of
// the expanded message, tested bit by bit.
func dvmaskUF(w []*Term) *Term {
	t := uf("dvmask", 32, w...)
	t.bitwise = true
	return t
}

func ufMaskBit(w [80]*Term, i int) B { return bitOf(dvmaskUF(w[:]), i) }

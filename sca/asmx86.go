package main

import (
	"math/big"
	"strings"
)

// instruction -> instruction-set extension (baseline SSE2 and older omitted)
func (u *asmUnit) features() map[string]string {
	if u.feats != nil {
		return u.feats
	}
	u.feats = map[string]string{}
	for _, in := range u.ins {
		ft := ""
		if u.arch == "amd64" {
			ft = x86feature(in)
		} else {
			ft = armfeature(in)
		}
		if ft != "" {
			if _, ok := u.feats[ft]; !ok {
				u.feats[ft] = in.pos + " " + strings.ReplaceAll(in.text, "\t", " ")
			}
		}
	}
	return u.feats
}

func x86feature(in asmIns) string {
	op := in.op
	switch {
	case strings.HasPrefix(op, "SHA1"), strings.HasPrefix(op, "SHA256"):
		return "SHA"
	case strings.HasPrefix(op, "V"):
		for _, a := range in.args {
			if strings.Contains(a, "Z") && len(a) < 4 || strings.Contains(a, "X1") && len(a) == 3 && a[1:] > "15" {
				return "AVX512F"
			}
			if len(a) > 1 && a[0] == 'Y' && op != "VMOVDQU" && op != "VMOVDQA" && op != "VZEROUPPER" {
				return "AVX2"
			}
		}
		return "AVX"
	}
	switch op {
	case "PINSRD", "PINSRQ", "PINSRB", "PEXTRD", "PEXTRQ", "PEXTRB", "PBLENDW", "PBLENDVB", "BLENDPS", "PMULLD", "PTEST", "PMINUD", "PMAXUD", "PCMPEQQ", "MOVNTDQA", "INSERTPS", "EXTRACTPS":
		return "SSE4"
	case "PCMPGTQ", "CRC32L", "CRC32B", "CRC32Q":
		return "SSE42"
	case "PSHUFB", "PALIGNR", "PABSD", "PHADDD", "PHADDW", "PHSUBD", "PHSUBW", "PSIGND":
		return "SSSE3"
	case "LDDQU", "MOVDDUP", "MOVSHDUP", "MOVSLDUP", "HADDPS":
		return "SSE3"
	case "RORXL", "RORXQ", "SHLXL", "SHRXL", "SARXL", "BZHIL", "MULXQ", "PDEPL", "PEXTL":
		return "BMI2"
	case "ANDNL", "ANDNQ", "BLSRL", "BLSIL", "TZCNTL", "TZCNTQ", "BLSRQ":
		return "BMI1"
	case "POPCNTL", "POPCNTQ":
		return "POPCNT"
	case "MOVBEL", "MOVBEQ", "MOVBELL", "MOVBEQQ":
		return "MOVBE"
	case "LZCNTL", "LZCNTQ":
		return "LZCNT"
	}
	return ""
}

var x86cc = map[string]string{"EQ": "==", "NE": "!=", "LT": "<", "GE": ">=", "GT": ">", "LE": "<=",
	"CS": "<u", "CC": ">=u", "HI": ">u", "LS": "<=u", "LO": "<u", "HS": ">=u", "B": "<u", "AE": ">=u", "A": ">u", "BE": "<=u",
	"Z": "==", "NZ": "!=", "L": "<", "G": ">", "E": "==", "MI": "<0", "PL": ">=0"}

func gpWidth(op string) (string, int) {
	if op == "" {
		return op, 0
	}
	switch op[len(op)-1] {
	case 'Q':
		return op[:len(op)-1], 64
	case 'L':
		return op[:len(op)-1], 32
	case 'W':
		return op[:len(op)-1], 16
	case 'B':
		return op[:len(op)-1], 8
	}
	return op, 0
}

func (u *asmUnit) isVec(s string) bool {
	r, ok := u.reg(s)
	return ok && r >= rVec
}

// gp reads a general-purpose operand of width w.
func (u *asmUnit) gp(a *An, st *State, s string, w int) Value {
	if v, ok := u.imm(s); ok {
		if w == 64 {
			return numL(64, linBig(new(big.Int).SetUint64(v)))
		}
		return numU(w, v&wmask(w))
	}
	if strings.HasPrefix(s, "$") {
		return u.mem(a, st, s[1:])
	}
	if r, ok := u.reg(s); ok && r < rVec {
		v := st.fr.regs[r]
		if n, ok := v.(Num); ok && n.w != w {
			return num(w, tTrunc(w, n.term()))
		}
		return v
	}
	if isMem(s) {
		return u.ldW(a, st, u.mem(a, st, s), int64(w/8))
	}
	giveUp("operand %s", s)
	return nil
}

func (u *asmUnit) setGP(a *An, st *State, s string, v Value, w int) {
	if r, ok := u.reg(s); ok && r < rVec {
		if n, ok := v.(Num); ok {
			switch w {
			case 64:
			case 32:
				if n.lin != nil {
					if l := fit(st.ctx, n.lin, 32, false); l != nil {
						st.fr.regs[r] = numL(64, l)
						return
					}
				}
				v = num(64, n.term()) // zero-extended
			default:
				old := asNum(st.fr.regs[r], 64).term()
				v = num(64, tXor(tAnd(old, tC(^wmask(w))), n.term()))
			}
		}
		st.fr.regs[r] = v
		return
	}
	if isMem(s) {
		u.stW(a, st, u.mem(a, st, s), v, int64(w/8))
		return
	}
	giveUp("destination %s", s)
}

func (u *asmUnit) vec(a *An, st *State, s string, in asmIns, legacy bool) Vec {
	if r, ok := u.reg(s); ok && r >= rVec {
		return st.fr.regs[r].(Vec)
	}
	if isMem(s) {
		p := u.mem(a, st, s)
		if legacy {
			u.needAlign(a, st, p, in)
		}
		return u.ldV(a, st, p)
	}
	giveUp("vector operand %s", s)
	return Vec{}
}

func (u *asmUnit) setVec(a *An, st *State, s string, v Vec) {
	r, ok := u.reg(s)
	if !ok || r < rVec {
		giveUp("vector destination %s", s)
	}
	st.fr.regs[r] = v
}

func (u *asmUnit) x86(a *An, st *State, b int, in asmIns) []Out {
	op, ar := in.op, in.args
	n := len(ar)
	flags := func(o string, x, y Value, w int) { st.fr.regs[rFlags] = asmFlags{o, x, y, w} }

	if op == "RET" {
		return u.ret(a, st)
	}
	if op == "JMP" {
		return []Out{{kind: oJump, to: u.succ[b][0], st: st}}
	}
	if op[0] == 'J' {
		cc, ok := x86cc[op[1:]]
		if !ok {
			giveUp("jump %s", op)
		}
		if strings.HasSuffix(cc, "0") {
			giveUp("jump %s", op)
		}
		return u.jump(a, st, b, u.cond(a, st, cc))
	}
	// vector instructions
	switch op {
	case "VZEROUPPER", "NOPL", "NOPW", "UNDEF":
		return nil
	case "MOVOU", "MOVOA", "MOVUPS", "MOVAPS", "MOVUPD", "MOVAPD", "MOVDQU", "MOVDQA", "VMOVDQU", "VMOVDQA", "VMOVUPS", "VMOVAPS", "LDDQU", "VLDDQU", "MOVNTDQ":
		al := op == "MOVOA" || op == "MOVAPS" || op == "MOVAPD" || op == "VMOVDQA" || op == "VMOVAPS" || op == "MOVDQA"
		if isMem(ar[1]) {
			p := u.mem(a, st, ar[1])
			if al {
				u.needAlign(a, st, p, in)
			}
			u.stV(a, st, p, u.vec(a, st, ar[0], in, false))
			return nil
		}
		u.setVec(a, st, ar[1], u.vec(a, st, ar[0], in, al))
		return nil
	case "PSHUFD", "VPSHUFD", "PSHUFL":
		k, ok := u.imm(ar[0])
		if !ok {
			break
		}
		s := u.vec(a, st, ar[1], in, op[0] != 'V')
		var v Vec
		for i := range v {
			v[i] = s[k>>(2*uint(i))&3]
		}
		u.setVec(a, st, ar[2], v)
		return nil
	case "PSHUFB", "VPSHUFB":
		m := u.vec(a, st, ar[0], in, op[0] != 'V')
		s := u.vec(a, st, ar[1], in, false)
		var bs [16]*Term
		for i := range bs {
			c, ok := vbyte(m, i).isConst()
			if !ok {
				giveUp("PSHUFB with an unknown mask")
			}
			if c&0x80 != 0 {
				bs[i] = tC(0)
			} else {
				bs[i] = vbyte(s, int(c&15))
			}
		}
		u.setVec(a, st, ar[n-1], vecOf(bs))
		return nil
	case "PADDL", "PADDD", "VPADDD", "PSUBL", "PSUBD", "VPSUBD", "PXOR", "VPXOR", "PAND", "VPAND", "POR", "VPOR", "PANDN", "VPANDN", "XORPS", "VXORPS", "ANDPS", "ORPS", "VANDPS", "VORPS":
		if strings.HasPrefix(op, "P") && n != 2 || n < 2 {
			break
		}
		x := u.vec(a, st, ar[0], in, op[0] != 'V')
		y := u.vec(a, st, ar[1], in, false)
		var v Vec
		for i := range v {
			switch strings.TrimPrefix(op, "V") {
			case "PADDL", "PADDD":
				v[i] = tAdd(32, x[i], y[i])
			case "PSUBL", "PSUBD":
				v[i] = tSub(32, y[i], x[i])
			case "PXOR", "XORPS":
				v[i] = tXor(x[i], y[i])
			case "PAND", "ANDPS":
				v[i] = tAnd(x[i], y[i])
			case "POR", "ORPS":
				v[i] = tOr(x[i], y[i])
			case "PANDN":
				v[i] = tAnd(x[i], tNot(32, y[i]))
			}
		}
		u.setVec(a, st, ar[n-1], v)
		return nil
	case "PSLLL", "PSLLD", "VPSLLD", "PSRLL", "PSRLD", "VPSRLD":
		k, ok := u.imm(ar[0])
		if !ok || k > 31 {
			break
		}
		s := u.vec(a, st, ar[max(n-2, 1)], in, false)
		var v Vec
		for i := range v {
			if strings.Contains(op, "SLL") {
				v[i] = tShl(32, s[i], int(k))
			} else {
				v[i] = tShr(s[i], int(k))
			}
		}
		u.setVec(a, st, ar[n-1], v)
		return nil
	case "PSRLO", "PSRLDQ", "VPSRLDQ", "PSLLO", "PSLLDQ", "VPSLLDQ":
		k, ok := u.imm(ar[0])
		if !ok {
			break
		}
		s := u.vec(a, st, ar[max(n-2, 1)], in, false)
		var bs [16]*Term
		for i := range bs {
			j := i + int(min(k, 16))
			if strings.Contains(op, "SLL") {
				j = i - int(min(k, 16))
			}
			bs[i] = tC(0)
			if j >= 0 && j < 16 {
				bs[i] = vbyte(s, j)
			}
		}
		u.setVec(a, st, ar[n-1], vecOf(bs))
		return nil
	case "PALIGNR", "VPALIGNR":
		k, ok := u.imm(ar[0])
		if !ok {
			break
		}
		lo := u.vec(a, st, ar[1], in, op[0] != 'V')
		hi := u.vec(a, st, ar[2], in, false)
		var bs [16]*Term
		for i := range bs {
			j := i + int(k)
			switch {
			case j < 16:
				bs[i] = vbyte(lo, j)
			case j < 32:
				bs[i] = vbyte(hi, j-16)
			default:
				bs[i] = tC(0)
			}
		}
		u.setVec(a, st, ar[n-1], vecOf(bs))
		return nil
	case "PBLENDW", "VPBLENDW":
		k, ok := u.imm(ar[0])
		if !ok {
			break
		}
		x := u.vec(a, st, ar[1], in, op[0] != 'V')
		y := u.vec(a, st, ar[2], in, false)
		var bs [16]*Term
		for i := range bs {
			if k>>(uint(i)/2)&1 != 0 {
				bs[i] = vbyte(x, i)
			} else {
				bs[i] = vbyte(y, i)
			}
		}
		u.setVec(a, st, ar[n-1], vecOf(bs))
		return nil
	case "PUNPCKLLQ", "PUNPCKLDQ", "PUNPCKHLQ", "PUNPCKHDQ", "PUNPCKLQDQ", "PUNPCKHQDQ", "VPUNPCKLDQ", "VPUNPCKHDQ", "VPUNPCKLQDQ", "VPUNPCKHQDQ":
		x := u.vec(a, st, ar[0], in, op[0] != 'V')
		y := u.vec(a, st, ar[1], in, false)
		var v Vec
		switch strings.TrimPrefix(op, "V") {
		case "PUNPCKLLQ", "PUNPCKLDQ":
			v = Vec{y[0], x[0], y[1], x[1]}
		case "PUNPCKHLQ", "PUNPCKHDQ":
			v = Vec{y[2], x[2], y[3], x[3]}
		case "PUNPCKLQDQ":
			v = Vec{y[0], y[1], x[0], x[1]}
		case "PUNPCKHQDQ":
			v = Vec{y[2], y[3], x[2], x[3]}
		}
		u.setVec(a, st, ar[n-1], v)
		return nil
	case "PINSRD", "VPINSRD":
		k, ok := u.imm(ar[0])
		if !ok {
			break
		}
		x := asNum(u.gp(a, st, ar[1], 32), 32).term()
		v := u.vec(a, st, ar[n-2+b2i(n == 3)], in, false)
		if n == 4 {
			v = u.vec(a, st, ar[2], in, false)
		}
		v[k&3] = x
		u.setVec(a, st, ar[n-1], v)
		return nil
	case "PEXTRD", "VPEXTRD":
		k, ok := u.imm(ar[0])
		if !ok {
			break
		}
		v := u.vec(a, st, ar[1], in, false)
		u.setGP(a, st, ar[2], num(32, v[k&3]), 32)
		return nil
	case "PINSRQ", "VPINSRQ", "PEXTRQ", "VPEXTRQ":
		giveUp("instruction %s", op)
	case "MOVD", "VMOVD", "VMOVQ":
		w := 32
		if op == "VMOVQ" {
			w = 64
		}
		switch {
		case u.isVec(ar[0]) && !u.isVec(ar[1]):
			v := u.vec(a, st, ar[0], in, false)
			x := v[0]
			if w == 64 {
				x = tXor(v[0], tShl(64, v[1], 32))
			}
			u.setGP(a, st, ar[1], num(w, x), w)
			return nil
		case !u.isVec(ar[0]) && u.isVec(ar[1]):
			x := asNum(u.gp(a, st, ar[0], w), w).term()
			u.setVec(a, st, ar[1], Vec{tTrunc(32, x), tShr(x, 32), tC(0), tC(0)})
			return nil
		}
	case "SHA1RNDS4":
		k, ok := u.imm(ar[0])
		if !ok {
			break
		}
		k &= 3
		w := u.vec(a, st, ar[1], in, true)
		s := u.vec(a, st, ar[2], in, false)
		A, B_, C, D := s[3], s[2], s[1], s[0]
		var E *Term = tC(0)
		for i := 0; i < 4; i++ {
			nA := mkSum(32, []Addend{{1, sha1f(int(k), B_, C, D)}, {1, tRotl(32, A, 5)}, {1, w[3-i]}, {1, E}}, sha1K[k])
			A, B_, C, D, E = nA, A, tRotl(32, B_, 30), C, D
		}
		u.setVec(a, st, ar[2], Vec{D, C, B_, A})
		return nil
	case "SHA1NEXTE":
		x := u.vec(a, st, ar[0], in, true)
		d := u.vec(a, st, ar[1], in, false)
		u.setVec(a, st, ar[1], Vec{x[0], x[1], x[2], tAdd(32, x[3], tRotl(32, d[3], 30))})
		return nil
	case "SHA1MSG1":
		x := u.vec(a, st, ar[0], in, true)
		d := u.vec(a, st, ar[1], in, false)
		u.setVec(a, st, ar[1], Vec{tXor(x[2], d[0]), tXor(x[3], d[1]), tXor(d[0], d[2]), tXor(d[1], d[3])})
		return nil
	case "SHA1MSG2":
		x := u.vec(a, st, ar[0], in, true)
		d := u.vec(a, st, ar[1], in, false)
		w16 := tRotl(32, tXor(d[3], x[2]), 1)
		w17 := tRotl(32, tXor(d[2], x[1]), 1)
		w18 := tRotl(32, tXor(d[1], x[0]), 1)
		w19 := tRotl(32, tXor(d[0], w16), 1)
		u.setVec(a, st, ar[1], Vec{w19, w18, w17, w16})
		return nil
	case "PUSHQ":
		sp := st.fr.regs[rSP].(Ptr)
		sp = Ptr{sp.obj, sp.off.addC(-8)}
		v := u.gp(a, st, ar[0], 64)
		u.checkFrameStore(a, st, sp, 8)
		a.store(st, sp, v, vkind{k: 'n', w: 64, size: 8})
		st.fr.regs[rSP] = sp
		return nil
	case "POPQ":
		sp := st.fr.regs[rSP].(Ptr)
		v := u.ldW(a, st, sp, 8)
		st.fr.regs[rSP] = Ptr{sp.obj, sp.off.addC(8)}
		u.setGP(a, st, ar[0], v, 64)
		return nil
	}
	if op == "MOVQ" && n == 2 && (u.isVec(ar[0]) || u.isVec(ar[1])) {
		switch {
		case u.isVec(ar[0]) && !u.isVec(ar[1]):
			v := u.vec(a, st, ar[0], in, false)
			u.setGP(a, st, ar[1], num(64, tXor(v[0], tShl(64, v[1], 32))), 64)
		case !u.isVec(ar[0]):
			x := asNum(u.gp(a, st, ar[0], 64), 64).term()
			u.setVec(a, st, ar[1], Vec{tTrunc(32, x), tShr(x, 32), tC(0), tC(0)})
		default:
			v := u.vec(a, st, ar[0], in, false)
			u.setVec(a, st, ar[1], Vec{v[0], v[1], tC(0), tC(0)})
		}
		return nil
	}
	if op == "MOVL" && n == 2 && (u.isVec(ar[0]) || u.isVec(ar[1])) {
		switch {
		case u.isVec(ar[0]) && !u.isVec(ar[1]):
			u.setGP(a, st, ar[1], num(32, u.vec(a, st, ar[0], in, false)[0]), 32)
			return nil
		case !u.isVec(ar[0]):
			x := asNum(u.gp(a, st, ar[0], 32), 32).term()
			u.setVec(a, st, ar[1], Vec{x, tC(0), tC(0), tC(0)})
			return nil
		}
	}
	// general-purpose instructions
	stem, w := gpWidth(op)
	switch op {
	case "MOVBLZX", "MOVBQZX", "MOVWLZX", "MOVWQZX", "MOVLQZX":
		sw := map[byte]int{'B': 8, 'W': 16, 'L': 32}[op[3]]
		dw := map[byte]int{'L': 32, 'Q': 64}[op[4]]
		u.setGP(a, st, ar[1], num(dw, asNum(u.gp(a, st, ar[0], sw), sw).term()), dw)
		return nil
	}
	arith := func(g string) []Out {
		y := u.gp(a, st, ar[0], w) // source
		x := u.gp(a, st, ar[1], w) // destination
		var r Value
		switch g {
		case "+":
			r = u.addV(a, st, x, y, w, false)
			flags("cmp", r, numC(w, 0), w)
		case "-":
			r = u.addV(a, st, x, y, w, true)
			flags("cmp", x, y, w)
		case "&":
			if p, ok := x.(Ptr); ok {
				r = u.alignDown(a, st, p, y)
			} else if p, ok := y.(Ptr); ok {
				r = u.alignDown(a, st, p, x)
			} else {
				r = a.binop(st, g, asNum(x, w), asNum(y, w), w, false)
			}
			flags("cmp", r, numC(w, 0), w)
		default:
			if g == "^" && ar[0] == ar[1] {
				r = numC(w, 0)
			} else {
				r = a.binop(st, g, asNum(x, w), asNum(y, w), w, false)
			}
			flags("cmp", r, numC(w, 0), w)
		}
		u.setGP(a, st, ar[1], r, w)
		return nil
	}
	if w > 0 && w != 16 {
		switch stem {
		case "MOV":
			u.setGP(a, st, ar[1], u.gp(a, st, ar[0], w), w)
			return nil
		case "LEA":
			if w == 64 {
				if r, ok := u.leaNum(a, st, ar[0]); ok {
					u.setGP(a, st, ar[1], r, w)
					return nil
				}
				u.setGP(a, st, ar[1], u.mem(a, st, ar[0]), w)
				return nil
			}
		case "ADD":
			return arith("+")
		case "SUB":
			return arith("-")
		case "AND":
			return arith("&")
		case "OR":
			return arith("|")
		case "XOR":
			return arith("^")
		case "INC", "DEC":
			x := u.gp(a, st, ar[0], w)
			r := u.addV(a, st, x, numC(w, 1), w, stem == "DEC")
			flags("cmp", r, numC(w, 0), w)
			u.setGP(a, st, ar[0], r, w)
			return nil
		case "NOT":
			x := asNum(u.gp(a, st, ar[0], w), w)
			u.setGP(a, st, ar[0], num(w, tNot(w, x.term())), w)
			return nil
		case "NEG":
			x := asNum(u.gp(a, st, ar[0], w), w)
			u.setGP(a, st, ar[0], a.binop(st, "-", numC(w, 0), x, w, false), w)
			flags("cmp", numC(w, 0), x, w)
			return nil
		case "SHL", "SAL", "SHR":
			if k, ok := u.imm(ar[0]); ok && n == 2 {
				x := asNum(u.gp(a, st, ar[1], w), w)
				o := "<<"
				if stem == "SHR" {
					o = ">>"
				}
				r := a.binop(st, o, x, numU(8, k&uint64(w-1)), w, false)
				flags("cmp", r, numC(w, 0), w)
				u.setGP(a, st, ar[1], r, w)
				return nil
			}
		case "ROL", "ROR":
			if k, ok := u.imm(ar[0]); ok {
				x := asNum(u.gp(a, st, ar[1], w), w)
				r := int(k) & (w - 1)
				if stem == "ROR" {
					r = (w - r) % w
				}
				st.fr.regs[rFlags] = nil
				u.setGP(a, st, ar[1], num(w, tRotl(w, x.term(), r)), w)
				return nil
			}
		case "BSWAP":
			x := asNum(u.gp(a, st, ar[0], w), w).term()
			r := tC(0)
			for i := 0; i < w/8; i++ {
				r = tXor(r, tShl(w, tAnd(tShr(x, 8*i), tC(0xff)), w-8-8*i))
			}
			u.setGP(a, st, ar[0], num(w, r), w)
			return nil
		case "CMP":
			flags("cmp", u.gp(a, st, ar[0], w), u.gp(a, st, ar[1], w), w)
			return nil
		case "TEST":
			x, y := u.gp(a, st, ar[0], w), u.gp(a, st, ar[1], w)
			if p, ok := x.(Ptr); ok && ar[0] == ar[1] {
				flags("cmp", p, numC(w, 0), w)
				return nil
			}
			flags("test", x, y, w)
			return nil
		case "XCHG":
			x, y := u.gp(a, st, ar[0], w), u.gp(a, st, ar[1], w)
			u.setGP(a, st, ar[0], y, w)
			u.setGP(a, st, ar[1], x, w)
			return nil
		case "RORX":
			if k, ok := u.imm(ar[0]); ok {
				x := asNum(u.gp(a, st, ar[1], w), w)
				u.setGP(a, st, ar[2], num(w, tRotl(w, x.term(), (w-int(k)&(w-1))%w)), w)
				return nil
			}
		}
	}
	giveUp("instruction %s is not supported", in.text)
	return nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// leaNum handles LEA used for integer arithmetic.
func (u *asmUnit) leaNum(a *An, st *State, s string) (Value, bool) {
	i := strings.Index(s, "(")
	j := strings.Index(s, ")")
	if i < 0 || strings.HasSuffix(s, "(SB)") {
		return nil, false
	}
	r, ok := u.reg(s[i+1 : j])
	if !ok {
		return nil, false
	}
	if _, isP := st.fr.regs[r].(Ptr); isP {
		return nil, false
	}
	x, ok := st.fr.regs[r].(Num)
	if !ok {
		return nil, false
	}
	off := int64(0)
	if i > 0 {
		l := linC(0)
		_ = l
		v, ok := u.imm("$" + s[:i])
		if !ok {
			return nil, false
		}
		off = int64(v)
	}
	res := u.addV(a, st, x, numC(64, off), 64, false)
	if j+1 < len(s) {
		idx := strings.Trim(s[j+1:], "()")
		k := strings.Index(idx, "*")
		sc := uint64(1)
		if k >= 0 {
			v, ok := u.imm("$" + idx[k+1:])
			if !ok {
				return nil, false
			}
			sc = v
			idx = idx[:k]
		}
		ri, ok := u.reg(idx)
		if !ok {
			return nil, false
		}
		if p, isP := st.fr.regs[ri].(Ptr); isP && sc == 1 {
			return u.addV(a, st, p, res, 64, false), true
		}
		y, ok := st.fr.regs[ri].(Num)
		if !ok {
			return nil, false
		}
		res = u.addV(a, st, res, a.binop(st, "*", y, numU(64, sc), 64, false), 64, false)
	}
	return res, true
}

var alignSyms = map[string]Sym{}

// alignDown models p AND mask with mask = -2^k.
func (u *asmUnit) alignDown(a *An, st *State, p Ptr, m Value) Value {
	c, ok := asNum(m, 64).term().isConst()
	if !ok {
		giveUp("address masked by an unknown value")
	}
	al := ^c + 1
	if al == 0 || al&(al-1) != 0 || al > 4096 {
		giveUp("address masked by %#x", c)
	}
	if u.isAligned(p) && al <= 16 {
		return p
	}
	key := p.off.key() + "/" + big.NewInt(int64(p.obj)).String() + "/" + u.name
	s, ok := alignSyms[key]
	if !ok {
		s = newSym("aligned", big.NewInt(-4096), pow2(20))
		syms[s].axioms = []Constraint{{s.lin().sub(p.off).addC(int64(al) - 1), false}, {p.off.sub(s.lin()), false}}
		alignSyms[key] = s
		if al >= 16 {
			aligned16[s] = true
		}
	}
	return Ptr{p.obj, s.lin()}
}

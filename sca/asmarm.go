package main

import (
	"strconv"
	"strings"
)

func armfeature(in asmIns) string {
	switch in.op {
	case "SHA1C", "SHA1P", "SHA1M", "SHA1H", "SHA1SU0", "SHA1SU1":
		return "SHA1"
	case "SHA256H", "SHA256H2", "SHA256SU0", "SHA256SU1":
		return "SHA2"
	case "SHA512H", "SHA512H2", "SHA512SU0", "SHA512SU1":
		return "SHA512"
	case "VEOR3", "VRAX1", "VXAR", "VBCAX":
		return "SHA3"
	case "AESE", "AESD", "AESMC", "AESIMC":
		return "AESARM"
	case "VPMULL", "VPMULL2":
		return "PMULL"
	case "CRC32B", "CRC32H", "CRC32W", "CRC32X", "CRC32CB", "CRC32CH", "CRC32CW", "CRC32CX":
		return "CRC32"
	}
	return ""
}

// vop parses V4.S4, V1.S[0], V1, F20.
func (u *asmUnit) vop(s string) (reg int, arr string, lane int, ok bool) {
	lane = -1
	if i := strings.Index(s, "."); i >= 0 {
		arr = s[i+1:]
		s = s[:i]
		if j := strings.Index(arr, "["); j >= 0 {
			l, err := strconv.Atoi(strings.Trim(arr[j:], "[]"))
			if err != nil {
				return 0, "", 0, false
			}
			lane = l
			arr = arr[:j]
		}
	}
	r, ok := u.reg(s)
	if !ok || r < rVec {
		return 0, "", 0, false
	}
	return r, arr, lane, true
}

func (u *asmUnit) vlist(s string) ([]int, string, bool) {
	if !strings.HasPrefix(s, "[") {
		return nil, "", false
	}
	var rs []int
	arr := ""
	for _, x := range strings.Split(strings.Trim(s, "[]"), ",") {
		r, ar, _, ok := u.vop(strings.TrimSpace(x))
		if !ok {
			return nil, "", false
		}
		arr = ar
		rs = append(rs, r)
	}
	return rs, arr, true
}

// gpa reads an arm64 general-purpose operand.
func (u *asmUnit) gpa(a *An, st *State, s string) Value {
	if s == "ZR" {
		return numC(64, 0)
	}
	if i := strings.Index(s, "<<"); i > 0 && !strings.HasPrefix(s, "$") {
		k, _ := strconv.Atoi(s[i+2:])
		return a.binop(st, "<<", asNum(u.gpa(a, st, s[:i]), 64), numC(8, int64(k)), 64, false)
	}
	if v, ok := u.imm(s); ok {
		return numU(64, v)
	}
	if strings.HasPrefix(s, "$") {
		if strings.HasSuffix(s, "(SB)") || strings.Contains(s, "(") {
			return u.mem(a, st, s[1:])
		}
	}
	if r, ok := u.reg(s); ok && r < rVec {
		return st.fr.regs[r]
	}
	giveUp("operand %s", s)
	return nil
}

func (u *asmUnit) setA(st *State, s string, v Value) {
	if s == "ZR" {
		return
	}
	r, ok := u.reg(s)
	if !ok || r >= rVec {
		giveUp("destination %s", s)
	}
	st.fr.regs[r] = v
}

func (u *asmUnit) baseReg(s string) int {
	i, j := strings.Index(s, "("), strings.Index(s, ")")
	r, ok := u.reg(s[i+1 : j])
	if !ok {
		giveUp("operand %s", s)
	}
	return r
}

// ixMem resolves a memory operand with pre/post indexing; step is the default
// increment of vector post-indexing.
func (u *asmUnit) ixMem(a *An, st *State, s, mode string, step int64) Ptr {
	switch mode {
	case "P":
		i := strings.Index(s, "(")
		off := step
		if i > 0 {
			v, err := strconv.ParseInt(s[:i], 10, 64)
			if err != nil {
				giveUp("operand %s", s)
			}
			off = v
		}
		r := u.baseReg(s)
		p, ok := st.fr.regs[r].(Ptr)
		if !ok {
			a.event(st, "oob", "memory access through "+s+", which holds no valid address")
			giveUp("memory access through %s, which holds no valid address", s)
		}
		st.fr.regs[r] = Ptr{p.obj, p.off.addC(off)}
		return p
	case "W":
		p := u.mem(a, st, s)
		st.fr.regs[u.baseReg(s)] = p
		return p
	}
	return u.mem(a, st, s)
}

var armcc = map[string]string{"BEQ": "==", "BNE": "!=", "BLT": "<", "BGE": ">=", "BGT": ">", "BLE": "<=",
	"BHI": ">u", "BLS": "<=u", "BLO": "<u", "BHS": ">=u", "BCC": "<u", "BCS": ">=u"}

func (u *asmUnit) arm(a *An, st *State, b int, in asmIns) []Out {
	op, ar := in.op, in.args
	mode := ""
	if i := strings.Index(op, "."); i >= 0 {
		op, mode = op[:i], op[i+1:]
	}
	n := len(ar)
	vreg := func(s string) Vec {
		r, _, l, ok := u.vop(s)
		if !ok || l >= 0 {
			giveUp("vector operand %s", s)
		}
		return st.fr.regs[r].(Vec)
	}
	setv := func(s string, v Vec) {
		r, _, l, ok := u.vop(s)
		if !ok || l >= 0 {
			giveUp("vector operand %s", s)
		}
		st.fr.regs[r] = v
	}
	half := func(s string, v Vec) Vec { // 64-bit arrangements clear the upper half
		if strings.HasSuffix(s, ".B8") || strings.HasSuffix(s, ".S2") || strings.HasSuffix(s, ".H4") || strings.HasSuffix(s, ".D1") {
			v[2], v[3] = tC(0), tC(0)
		}
		return v
	}
	switch op {
	case "RET":
		return u.ret(a, st)
	case "JMP", "B":
		return []Out{{kind: oJump, to: u.succ[b][0], st: st}}
	case "CBZ", "CBNZ", "CBZW", "CBNZW":
		v := u.gpa(a, st, ar[0])
		var c B
		if p, ok := v.(Ptr); ok {
			c = F
			if p.nil() {
				c = Tr
			}
		} else {
			x := asNum(v, 64)
			w := 64
			if strings.HasSuffix(op, "W") {
				w = 32
				x = num(32, tTrunc(32, x.term()))
			}
			c = a.cmp(st, "==", x, numC(w, 0), w, false)
		}
		if strings.HasPrefix(op, "CBN") {
			c = c.not()
		}
		return u.jump(a, st, b, c)
	case "CMP", "CMPW":
		w := 64
		x, y := u.gpa(a, st, ar[1]), u.gpa(a, st, ar[0])
		if op == "CMPW" {
			w = 32
			x, y = num(32, tTrunc(32, asNum(x, 64).term())), num(32, tTrunc(32, asNum(y, 64).term()))
		}
		st.fr.regs[rFlags] = asmFlags{"cmp", x, y, w}
		return nil
	case "TST":
		st.fr.regs[rFlags] = asmFlags{"test", u.gpa(a, st, ar[1]), u.gpa(a, st, ar[0]), 64}
		return nil
	case "MOVD", "MOVW", "MOVWU", "MOVBU", "MOVB", "MOVHU":
		sz := map[string]int64{"MOVD": 8, "MOVW": 4, "MOVWU": 4, "MOVBU": 1, "MOVB": 1, "MOVHU": 2}[op]
		switch {
		case isMem(ar[1]) && !strings.HasPrefix(ar[1], "$"):
			v := u.gpa(a, st, ar[0])
			p := u.ixMem(a, st, ar[1], mode, 0)
			if ar[0] == "R29" || ar[0] == "R30" {
				// saving the frame record
				a.store(st, p, v, vkind{k: 'n', w: 64, size: 8})
				return nil
			}
			u.stW(a, st, p, v, sz)
		case isMem(ar[0]) && !strings.HasPrefix(ar[0], "$"):
			p := u.ixMem(a, st, ar[0], mode, 0)
			v := u.ldW(a, st, p, sz)
			if nn, ok := v.(Num); ok && sz < 8 {
				t := nn.term()
				if op == "MOVW" || op == "MOVB" {
					t = tSext(int(sz*8), 64, t)
				}
				v = num(64, t)
			}
			u.setA(st, ar[1], v)
		default:
			v := u.gpa(a, st, ar[0])
			if sz < 8 {
				if nn, ok := v.(Num); ok {
					t := tTrunc(int(sz*8), nn.term())
					if op == "MOVW" || op == "MOVB" {
						t = tSext(int(sz*8), 64, t)
					}
					v = num(64, t)
				}
			}
			u.setA(st, ar[1], v)
		}
		return nil
	case "ADD", "SUB", "AND", "ORR", "EOR", "ADDS", "SUBS", "BIC", "LSL", "LSR", "ADDW", "SUBW", "ANDW", "ORRW", "EORW", "LSLW", "LSRW", "ANDS":
		y := u.gpa(a, st, ar[0])
		x := u.gpa(a, st, ar[min(1, n-1)])
		d := ar[n-1]
		w := 64
		g := op
		if strings.HasSuffix(g, "W") {
			w = 32
			g = g[:len(g)-1]
			x, y = num(32, tTrunc(32, asNum(x, 64).term())), num(32, tTrunc(32, asNum(y, 64).term()))
		}
		setf := strings.HasSuffix(g, "S") && g != "EORS"
		g = strings.TrimSuffix(g, "S")
		var r Value
		switch g {
		case "ADD":
			r = u.addV(a, st, x, y, w, false)
		case "SUB":
			r = u.addV(a, st, x, y, w, true)
			if setf {
				st.fr.regs[rFlags] = asmFlags{"cmp", x, y, w}
			}
		case "AND":
			if p, ok := x.(Ptr); ok {
				r = u.alignDown(a, st, p, y)
			} else {
				r = a.binop(st, "&", asNum(x, w), asNum(y, w), w, false)
			}
		case "ORR":
			r = a.binop(st, "|", asNum(x, w), asNum(y, w), w, false)
		case "EOR":
			r = a.binop(st, "^", asNum(x, w), asNum(y, w), w, false)
		case "BIC":
			r = a.binop(st, "&", asNum(x, w), num(w, tNot(w, asNum(y, w).term())), w, false)
		case "LSL", "LSR":
			k, ok := asNum(y, w).term().isConst()
			if !ok {
				giveUp("shift by a register")
			}
			o := "<<"
			if g == "LSR" {
				o = ">>"
			}
			r = a.binop(st, o, asNum(x, w), numU(8, k&uint64(w-1)), w, false)
		}
		if setf && g != "SUB" {
			st.fr.regs[rFlags] = asmFlags{"cmp", r, numC(w, 0), w}
		}
		if w == 32 {
			r = num(64, r.(Num).term())
		}
		u.setA(st, d, r)
		return nil
	case "RORW", "ROR":
		k, ok := u.imm(ar[0])
		if ok {
			w := 64
			if op == "RORW" {
				w = 32
			}
			x := tTrunc(w, asNum(u.gpa(a, st, ar[min(1, n-1)]), 64).term())
			u.setA(st, ar[n-1], num(64, tRotl(w, x, (w-int(k)&(w-1))%w)))
			return nil
		}
	case "VLD1", "VST1":
		store := op == "VST1"
		lst, m := ar[0], ar[1]
		if !store {
			m, lst = ar[0], ar[1]
		}
		if rs, arr, ok := u.vlist(lst); ok {
			if !strings.HasSuffix(arr, "16") && arr != "S4" && arr != "D2" && arr != "H8" {
				giveUp("arrangement %s", arr)
			}
			p := u.ixMem(a, st, m, mode, int64(16*len(rs)))
			for i, r := range rs {
				q := Ptr{p.obj, p.off.addC(int64(16 * i))}
				if store {
					u.stV(a, st, q, st.fr.regs[r].(Vec))
				} else {
					st.fr.regs[r] = u.ldV(a, st, q)
				}
			}
			return nil
		}
		r, arr, lane, ok := u.vop(lst)
		if ok && lane >= 0 && arr == "S" && lane < 4 {
			p := u.ixMem(a, st, m, mode, 4)
			v := st.fr.regs[r].(Vec)
			if store {
				u.stW(a, st, p, num(32, v[lane]), 4)
			} else {
				v[lane] = asNum(u.ldW(a, st, p, 4), 32).term()
				st.fr.regs[r] = v
			}
			return nil
		}
	case "FMOVS", "FMOVD", "FMOVQ":
		sz := map[string]int64{"FMOVS": 4, "FMOVD": 8, "FMOVQ": 16}[op]
		if isMem(ar[0]) {
			p := u.ixMem(a, st, ar[0], mode, 0)
			switch sz {
			case 16:
				setv(ar[1], u.ldV(a, st, p))
			case 4:
				setv(ar[1], Vec{asNum(u.ldW(a, st, p, 4), 32).term(), tC(0), tC(0), tC(0)})
			case 8:
				x := asNum(u.ldW(a, st, p, 8), 64).term()
				setv(ar[1], Vec{tTrunc(32, x), tShr(x, 32), tC(0), tC(0)})
			}
			return nil
		}
		if isMem(ar[1]) {
			v := vreg(ar[0])
			p := u.ixMem(a, st, ar[1], mode, 0)
			switch sz {
			case 16:
				u.stV(a, st, p, v)
			case 4:
				u.stW(a, st, p, num(32, v[0]), 4)
			case 8:
				u.stW(a, st, p, num(64, tXor(v[0], tShl(64, v[1], 32))), 8)
			}
			return nil
		}
		_, _, _, v0 := u.vop(ar[0])
		_, _, _, v1 := u.vop(ar[1])
		switch {
		case v0 && v1 && sz == 4:
			setv(ar[1], Vec{vreg(ar[0])[0], tC(0), tC(0), tC(0)})
			return nil
		case v0 && !v1 && sz == 4:
			u.setA(st, ar[1], num(64, vreg(ar[0])[0]))
			return nil
		case !v0 && v1 && sz == 4:
			setv(ar[1], Vec{tTrunc(32, asNum(u.gpa(a, st, ar[0]), 64).term()), tC(0), tC(0), tC(0)})
			return nil
		}
	case "VMOV":
		r0, a0, l0, ok0 := u.vop(ar[0])
		r1, a1, l1, ok1 := u.vop(ar[1])
		switch {
		case ok0 && ok1 && l0 < 0 && l1 < 0:
			v := st.fr.regs[r0].(Vec)
			st.fr.regs[r1] = half(ar[1], v)
			return nil
		case ok0 && ok1 && l0 >= 0 && l1 < 0 && a0 == "S" && a1 == "":
			// scalar duplicate: the rest of the register is cleared
			st.fr.regs[r1] = Vec{st.fr.regs[r0].(Vec)[l0], tC(0), tC(0), tC(0)}
			return nil
		case ok0 && ok1 && l0 >= 0 && l1 >= 0 && a0 == "S" && a1 == "S":
			v := st.fr.regs[r1].(Vec)
			v[l1] = st.fr.regs[r0].(Vec)[l0]
			st.fr.regs[r1] = v
			return nil
		case ok0 && !ok1 && l0 >= 0 && a0 == "S":
			u.setA(st, ar[1], num(64, st.fr.regs[r0].(Vec)[l0]))
			return nil
		case !ok0 && ok1 && l1 >= 0 && a1 == "S":
			v := st.fr.regs[r1].(Vec)
			v[l1] = tTrunc(32, asNum(u.gpa(a, st, ar[0]), 64).term())
			st.fr.regs[r1] = v
			return nil
		}
	case "VDUP":
		r0, a0, l0, ok0 := u.vop(ar[0])
		r1, a1, _, ok1 := u.vop(ar[1])
		if ok1 && a1 == "S4" {
			var x *Term
			if ok0 && l0 >= 0 && a0 == "S" {
				x = st.fr.regs[r0].(Vec)[l0]
			} else if !ok0 {
				x = tTrunc(32, asNum(u.gpa(a, st, ar[0]), 64).term())
			}
			if x != nil {
				st.fr.regs[r1] = Vec{x, x, x, x}
				return nil
			}
		}
	case "VREV32", "VREV64":
		_, arr, _, ok := u.vop(ar[0])
		if ok && arr == "B16" {
			s := vreg(ar[0])
			var bs [16]*Term
			g := 4
			if op == "VREV64" {
				g = 8
			}
			for i := range bs {
				bs[i] = vbyte(s, i/g*g+g-1-i%g)
			}
			setv(ar[1], vecOf(bs))
			return nil
		}
		if ok && arr == "S4" && op == "VREV64" {
			s := vreg(ar[0])
			setv(ar[1], Vec{s[1], s[0], s[3], s[2]})
			return nil
		}
	case "VADD", "VSUB", "VEOR", "VORR", "VAND":
		_, arr, _, ok := u.vop(ar[0])
		if !ok || n != 3 || (op == "VADD" || op == "VSUB") && arr != "S4" {
			break
		}
		x, y := vreg(ar[0]), vreg(ar[1])
		var v Vec
		for i := range v {
			switch op {
			case "VADD":
				v[i] = tAdd(32, x[i], y[i])
			case "VSUB":
				v[i] = tSub(32, y[i], x[i])
			case "VEOR":
				v[i] = tXor(x[i], y[i])
			case "VORR":
				v[i] = tOr(x[i], y[i])
			case "VAND":
				v[i] = tAnd(x[i], y[i])
			}
		}
		if op == "VEOR" && ar[0] == ar[1] {
			v = Vec{tC(0), tC(0), tC(0), tC(0)}
		}
		setv(ar[2], half(ar[2], v))
		return nil
	case "VEXT":
		k, ok := u.imm(ar[0])
		if ok && n == 4 {
			m, nn := vreg(ar[1]), vreg(ar[2]) // bytes: low from Vn, high from Vm
			var bs [16]*Term
			for i := range bs {
				j := i + int(k&15)
				if j < 16 {
					bs[i] = vbyte(nn, j)
				} else {
					bs[i] = vbyte(m, j-16)
				}
			}
			setv(ar[3], vecOf(bs))
			return nil
		}
	case "SHA1C", "SHA1P", "SHA1M":
		w, e, x := vreg(ar[0]), vreg(ar[1]), vreg(ar[2])
		k := map[string]int{"SHA1C": 0, "SHA1P": 1, "SHA1M": 2}[op]
		y := e[0]
		for i := 0; i < 4; i++ {
			y = mkSum(32, []Addend{{1, y}, {1, tRotl(32, x[0], 5)}, {1, sha1f(k, x[1], x[2], x[3])}, {1, w[i]}}, 0)
			x[1] = tRotl(32, x[1], 30)
			x, y = Vec{y, x[0], x[1], x[2]}, x[3]
		}
		setv(ar[2], x)
		return nil
	case "SHA1H":
		setv(ar[1], Vec{tRotl(32, vreg(ar[0])[0], 30), tC(0), tC(0), tC(0)})
		return nil
	case "SHA1SU0":
		m, nn, d := vreg(ar[0]), vreg(ar[1]), vreg(ar[2])
		t := Vec{d[2], d[3], nn[0], nn[1]}
		var v Vec
		for i := range v {
			v[i] = tXor(tXor(t[i], d[i]), m[i])
		}
		setv(ar[2], v)
		return nil
	case "SHA1SU1":
		nn, d := vreg(ar[0]), vreg(ar[1])
		t := Vec{tXor(d[0], nn[1]), tXor(d[1], nn[2]), tXor(d[2], nn[3]), d[3]}
		v := Vec{tRotl(32, t[0], 1), tRotl(32, t[1], 1), tRotl(32, t[2], 1), tRotl(32, t[3], 1)}
		v[3] = tXor(v[3], tRotl(32, t[0], 2))
		setv(ar[1], v)
		return nil
	}
	if cc, ok := armcc[op]; ok {
		return u.jump(a, st, b, u.cond(a, st, cc))
	}
	giveUp("instruction %s is not supported", in.text)
	return nil
}

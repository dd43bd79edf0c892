package main

import (
	"bytes"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Front end for the assembly kernels: the assembler's own listing (macros
// expanded, every instruction resolved) is parsed into a control-flow graph and
// analysed with a transfer function per instruction.

type asmIns struct {
	pc   int
	pos  string
	op   string
	args []string
	text string
}

type asmUnit struct {
	name  string
	arch  string
	frame int64
	ins   []asmIns
	// control flow
	start []int // block -> first instruction
	end   []int
	succ  [][]int
	data  map[string]ObjID
	f     *goFront
	argN  int64
	split bool
	file  string
	feats map[string]string // feature -> example instruction
}

func asmFiles(f *goFront) []string {
	var out []string
	for _, p := range f.pkgs {
		for _, of := range p.OtherFiles {
			if strings.HasSuffix(of, ".s") {
				out = append(out, of)
			}
		}
	}
	sort.Strings(out)
	return out
}

func loadAsm(f *goFront) (map[string]asmFunc, error) {
	out := map[string]asmFunc{}
	tmp, err := os.MkdirTemp("", "sca")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	gr, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, err
	}
	inc := filepath.Join(strings.TrimSpace(string(gr)), "pkg", "include")
	for _, file := range asmFiles(f) {
		pkg := ""
		for _, p := range f.pkgs {
			for _, of := range p.OtherFiles {
				if of == file {
					pkg = p.PkgPath
				}
			}
		}
		cmd := exec.Command("go", "tool", "asm", "-S", "-p", pkg, "-I", inc, "-I", filepath.Dir(file), "-D", "GOOS_linux", "-D", "GOARCH_"+f.cfg.arch, "-o", filepath.Join(tmp, "a.o"), file)
		cmd.Env = goEnv(f.cfg)
		cmd.Dir = filepath.Dir(file)
		var ob, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &ob, &eb
		if err := cmd.Run(); err != nil {
			return nil, fmt.Errorf("assembling %s: %v %s", file, err, eb.String())
		}
		us, err := parseListing(f, pkg, file, ob.String())
		if err != nil {
			return nil, err
		}
		for _, u := range us {
			out[u.name] = u
		}
	}
	return out, nil
}

func parseListing(f *goFront, pkg, file, s string) ([]*asmUnit, error) {
	var us []*asmUnit
	data := map[string]ObjID{}
	var cur *asmUnit
	var dsym string
	raw := map[string][]byte{}
	size := map[string]int{}
	ro := map[string]bool{}
	for _, line := range strings.Split(s, "\n") {
		if line == "" {
			continue
		}
		if line[0] != '\t' {
			cur, dsym = nil, ""
			fs := strings.Fields(line)
			if len(fs) < 2 {
				continue
			}
			name := strings.TrimPrefix(fs[0], pkg+".")
			if fs[1] == "STEXT" {
				cur = &asmUnit{name: name, arch: f.cfg.arch, data: data, f: f, file: file, split: !strings.Contains(line, " nosplit")}
				us = append(us, cur)
			} else {
				dsym = name
				ro[name] = strings.Contains(fs[1], "RODATA")
				for _, x := range fs {
					if strings.HasPrefix(x, "size=") {
						size[name], _ = strconv.Atoi(x[5:])
					}
				}
				raw[name] = make([]byte, 0, size[name])
			}
			continue
		}
		l := line[1:]
		if cur != nil && strings.HasPrefix(l, "0x") && strings.Contains(l, "(") && len(l) > 13 && l[6] == ' ' && l[12] == ' ' && l[13] == '(' {
			i := strings.Index(l, ")\t")
			if i < 0 {
				continue
			}
			pc, _ := strconv.Atoi(l[7:12])
			pos := l[14:i]
			rest := l[i+2:]
			op, as := rest, ""
			if j := strings.Index(rest, "\t"); j >= 0 {
				op, as = rest[:j], rest[j+1:]
			}
			in := asmIns{pc: pc, pos: strings.TrimPrefix(pos, repoDir+"/"), op: op, args: splitArgs(as), text: rest}
			switch op {
			case "TEXT":
				a := in.args[len(in.args)-1] // $88-96
				p := strings.SplitN(strings.TrimPrefix(a, "$"), "-", 2)
				n, err := strconv.ParseInt(p[0], 10, 64)
				if err != nil {
					return nil, fmt.Errorf("frame size %q", a)
				}
				cur.frame = n
				if len(p) > 1 {
					cur.argN, _ = strconv.ParseInt(p[1], 10, 64)
				}
				continue
			case "FUNCDATA", "PCDATA", "NOP", "HINT", "PCALIGN":
				continue
			}
			cur.ins = append(cur.ins, in)
			continue
		}
		if dsym != "" && strings.HasPrefix(l, "0x") {
			for _, h := range strings.Fields(l[7:min(len(l), 7+48)]) {
				if len(h) != 2 {
					break
				}
				b, err := strconv.ParseUint(h, 16, 8)
				if err != nil {
					break
				}
				raw[dsym] = append(raw[dsym], byte(b))
			}
		}
	}
	for n, b := range raw {
		if len(b) > size[n] {
			b = b[:size[n]]
		}
		for len(b) < size[n] {
			b = append(b, 0)
		}
		f.gN--
		id := ObjID(f.gN)
		var segs []Seg
		for i, x := range b {
			segs = append(segs, cell(int64(i), 1, numC(8, int64(x))))
		}
		f.base[id] = &Obj{&ObjMeta{name: "data symbol " + n, kind: "const", ro: ro[n], global: true}, linC(int64(len(b))), segs}
		data[n] = id
	}
	for _, u := range us {
		if err := u.cfg(); err != nil {
			return nil, err
		}
	}
	return us, nil
}

func splitArgs(s string) []string {
	var out []string
	d := 0
	cur := ""
	for _, c := range s {
		switch {
		case c == '[' || c == '(':
			d++
		case c == ']' || c == ')':
			d--
		case c == ',' && d == 0:
			out = append(out, strings.TrimSpace(cur))
			cur = ""
			continue
		}
		cur += string(c)
	}
	if strings.TrimSpace(cur) != "" {
		out = append(out, strings.TrimSpace(cur))
	}
	return out
}

func (u *asmUnit) isJump(op string) (jump, cond bool) {
	if u.arch == "amd64" {
		if op == "JMP" {
			return true, false
		}
		if strings.HasPrefix(op, "J") {
			return true, true
		}
		return false, false
	}
	switch op {
	case "JMP", "B":
		return true, false
	case "CBZ", "CBNZ", "CBZW", "CBNZW", "TBZ", "TBNZ", "BEQ", "BNE", "BLT", "BGE", "BGT", "BLE", "BHI", "BLS", "BLO", "BHS", "BCC", "BCS", "BMI", "BPL":
		return true, true
	}
	return false, false
}

func (u *asmUnit) cfg() error {
	idx := map[int]int{}
	for i := len(u.ins) - 1; i >= 0; i-- {
		idx[u.ins[i].pc] = i
	}
	lead := map[int]bool{0: true}
	tgt := map[int]int{}
	for i, in := range u.ins {
		j, _ := u.isJump(in.op)
		if j {
			t := in.args[len(in.args)-1]
			pc, err := strconv.Atoi(t)
			if err != nil {
				return fmt.Errorf("%s: jump target %q", in.pos, t)
			}
			k, ok := idx[pc]
			if !ok {
				return fmt.Errorf("%s: jump to %d", in.pos, pc)
			}
			tgt[i] = k
			lead[k] = true
			lead[i+1] = true
		}
		if in.op == "RET" {
			lead[i+1] = true
		}
	}
	blk := map[int]int{}
	for i := range u.ins {
		if lead[i] {
			blk[i] = len(u.start)
			u.start = append(u.start, i)
		}
	}
	for b, s := range u.start {
		e := len(u.ins)
		if b+1 < len(u.start) {
			e = u.start[b+1]
		}
		_ = s
		u.end = append(u.end, e)
		last := u.ins[e-1]
		var ss []int
		j, c := u.isJump(last.op)
		if j {
			ss = append(ss, blk[tgt[e-1]])
		}
		if (!j || c) && last.op != "RET" {
			if e >= len(u.ins) {
				return fmt.Errorf("%s: control falls off the end of %s", last.pos, u.name)
			}
			ss = append(ss, blk[e])
		}
		u.succ = append(u.succ, ss)
	}
	return nil
}

func (u *asmUnit) Name() string      { return "asm " + u.name }
func (u *asmUnit) NBlocks() int      { return len(u.start) }
func (u *asmUnit) Succs(b int) []int { return u.succ[b] }
func (u *asmUnit) NInstr(b int) int  { return u.end[b] - u.start[b] + 1 }
func (u *asmUnit) PosOf(b, i int) string {
	k := min(u.start[b]+i, u.end[b]-1)
	return fmt.Sprintf("%s (%s: %s)", u.ins[k].pos, u.name, strings.ReplaceAll(u.ins[k].text, "\t", " "))
}
func (u *asmUnit) Edge(a *An, st *State, from, to int) {
	op := u.ins[u.start[to]].op
	if j, c := u.isJump(op); j && c && !strings.HasPrefix(op, "CB") {
		return
	}
	st.fr.regs[rFlags] = nil
}

// register file layout
const (
	rSP    = 31
	rVec   = 32
	rFlags = 64
	rNum   = 66
	rBP0   = 65 // value of the frame pointer on entry
)

var x86regs = map[string]int{"AX": 0, "CX": 1, "DX": 2, "BX": 3, "SP": rSP, "BP": 5, "SI": 6, "DI": 7,
	"R8": 8, "R9": 9, "R10": 10, "R11": 11, "R12": 12, "R13": 13, "R14": 14, "R15": 15}

func (u *asmUnit) reg(s string) (int, bool) {
	if u.arch == "amd64" {
		if r, ok := x86regs[s]; ok {
			return r, true
		}
		if len(s) > 1 && s[0] == 'X' {
			n, err := strconv.Atoi(s[1:])
			if err == nil && n < 16 {
				return rVec + n, true
			}
		}
		return 0, false
	}
	if s == "RSP" {
		return rSP, true
	}
	if len(s) > 1 && (s[0] == 'R' || s[0] == 'V' || s[0] == 'F') {
		n, err := strconv.Atoi(s[1:])
		if err != nil || n > 31 {
			return 0, false
		}
		if s[0] == 'R' {
			return n, true
		}
		return rVec + n, true
	}
	return 0, false
}

func undefTerm(name string, w int) *Term {
	t := freshAtom("uninitialised "+name, w)
	t.undef = true
	return t
}

type asmFlags struct {
	op   string // "cmp" x-y, "test" x&y
	x, y Value
	w    int
}

// Call runs the kernel with the ABI0 argument layout.
func (u *asmUnit) Call(a *An, st *State, args []Value, sig *types.Signature, fn *ssa.Function) []Out {
	if a.asmFeat != nil {
		a.asmFeat(a, st, u)
	}
	psz := a.psz
	base := u.frame + 8
	if u.arch == "arm64" {
		base = u.frame + 8 + 16
	}
	fo := &Obj{&ObjMeta{name: "stack frame of " + u.name, kind: "frame"}, linC(base + u.argN), []Seg{{linC(0), linC(base + u.argN), cUndef{}}}}
	off := int64(0)
	put := func(v Value, n int64) {
		if off+n > u.argN {
			giveUp("argument area of %s is too small", u.name)
		}
		fo = a.writeSegs(st.ctx, fo, linC(base+off), linC(base+off+n), []Seg{{linC(0), linC(n), cCell{v}}})
		off += n
	}
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		n := u.f.sizes.Sizeof(t)
		al := u.f.sizes.Alignof(t)
		off = (off + al - 1) / al * al
		switch v := args[i].(type) {
		case SliceV:
			put(v.p, psz)
			put(numL(int(psz*8), v.len), psz)
			put(numL(int(psz*8), v.cap), psz)
		case StrV:
			put(v.p, psz)
			put(numL(int(psz*8), v.len), psz)
		case Ptr, Num, Bool:
			put(v, n)
		default:
			giveUp("argument %s of an assembly function", vstr(v))
		}
	}
	rets := int64(0)
	if sig.Results().Len() > 0 {
		giveUp("assembly function with results")
	}
	_ = rets
	id := a.newObj(st, fo.meta, fo.size, fo.segs)
	nf := &Frame{code: u, regs: make([]Value, rNum), parent: st.fr, depth: st.fr.depth + 1, key: st.fr.key + ">asm"}
	for i := 0; i < 31; i++ {
		nf.regs[i] = num(64, undefTerm(fmt.Sprintf("general register %d", i), 64))
	}
	for i := 0; i < 32; i++ {
		var v Vec
		for j := range v {
			v[j] = undefTerm(fmt.Sprintf("vector register %d", i), 32)
		}
		nf.regs[rVec+i] = v
	}
	nf.regs[rSP] = Ptr{id, linC(base - 8)}
	if u.arch == "amd64" {
		nf.regs[5] = num(64, mkAtom("caller's frame pointer", ^uint64(0), func(t *Term) {}))
	} else {
		nf.regs[29] = num(64, mkAtom("caller's frame pointer", ^uint64(0), func(t *Term) {}))
		nf.regs[30] = num(64, mkAtom("return address", ^uint64(0), func(t *Term) {}))
		nf.regs[28] = num(64, mkAtom("g", ^uint64(0), func(t *Term) {}))
	}
	caller := st.fr
	pos := curPos
	st.fr = nf
	a.cnt("asm calls", 1)
	outs := a.run(u, st)
	curPos = pos
	for i := range outs {
		f := *caller
		f.regs = append([]Value{}, caller.regs...)
		outs[i].st.fr = &f
		delete(outs[i].st.mem, id)
		if outs[i].kind == oRet {
			outs[i].val = Tuple{}
		}
	}
	return outs
}

func (u *asmUnit) ret(a *An, st *State) []Out {
	sp, ok := st.fr.regs[rSP].(Ptr)
	base := u.frame
	if u.arch == "arm64" {
		base = u.frame + 16
	}
	if !ok || !st.ctx.eq0(sp.off.addC(-base)) {
		a.event(st, "abi", "the stack pointer is not restored before RET")
	}
	chk := func(r int, name, what string) {
		n, ok := st.fr.regs[r].(Num)
		if !ok || n.term() != mkAtom(name, ^uint64(0), func(t *Term) {}) {
			a.event(st, "abi", what+" is not preserved")
		}
	}
	if u.arch == "amd64" {
		chk(5, "caller's frame pointer", "BP")
	} else {
		chk(30, "return address", "the link register")
		chk(28, "g", "the goroutine register R28")
	}
	return []Out{{kind: oRet, st: st, val: Tuple{}, pos: curPos}}
}

func (u *asmUnit) Step(a *An, st *State, b, i int) []Out {
	k := u.start[b] + i
	if k >= u.end[b] {
		return []Out{{kind: oJump, to: u.succ[b][0], st: st}}
	}
	in := u.ins[k]
	a.cnt("asm instructions", 1)
	if u.arch == "amd64" {
		return u.x86(a, st, b, in)
	}
	return u.arm(a, st, b, in)
}

// ---- operands

type asmMem struct {
	p     Ptr
	ok    bool
	align bool // known 16-byte aligned
}

var aligned16 = map[Sym]bool{}

func (u *asmUnit) imm(s string) (uint64, bool) {
	if !strings.HasPrefix(s, "$") {
		return 0, false
	}
	if v, err := strconv.ParseInt(s[1:], 0, 64); err == nil {
		return uint64(v), true
	}
	if v, err := strconv.ParseUint(s[1:], 0, 64); err == nil {
		return v, true
	}
	return 0, false
}

func (u *asmUnit) dataSym(s string) (ObjID, int64, bool) {
	// name<>+off(SB), pkg.name+off(SB)
	s = strings.TrimSuffix(s, "(SB)")
	off := int64(0)
	if i := strings.LastIndexAny(s, "+-"); i > 0 {
		if v, err := strconv.ParseInt(s[i:], 10, 64); err == nil {
			off = v
			s = s[:i]
		}
	}
	s = strings.TrimSuffix(s, "<>")
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
		if j := strings.Index(s, "."); j >= 0 {
			s = s[j+1:]
		}
	} else if j := strings.LastIndex(s, "."); j >= 0 {
		s = s[j+1:]
	}
	id, ok := u.data[s]
	return id, off, ok
}

// mem resolves a memory operand to a pointer.
func (u *asmUnit) mem(a *An, st *State, s string) Ptr {
	if strings.HasSuffix(s, "(SB)") {
		id, off, ok := u.dataSym(s)
		if !ok {
			giveUp("unknown data symbol %s", s)
		}
		return Ptr{id, linC(off)}
	}
	i := strings.Index(s, "(")
	if i < 0 {
		giveUp("operand %s", s)
	}
	offs, rest := s[:i], s[i:]
	var idx string
	j := strings.Index(rest, ")")
	base := rest[1:j]
	if j+1 < len(rest) {
		idx = strings.Trim(rest[j+1:], "()")
	}
	if base == "FP" {
		off := int64(0)
		if k := strings.LastIndexAny(offs, "+-"); k >= 0 {
			off, _ = strconv.ParseInt(offs[k:], 10, 64)
		}
		fr := st.fr
		sp := fr.regs[rSP].(Ptr)
		if u.arch == "amd64" {
			return Ptr{sp.obj, sp.off.addC(off)}
		}
		return Ptr{sp.obj, linC(u.frame + 24 + off)}
	}
	off := int64(0)
	if offs != "" {
		if k := strings.LastIndexAny(offs, "+-"); k > 0 {
			offs = offs[k:]
		}
		v, err := strconv.ParseInt(offs, 10, 64)
		if err != nil {
			giveUp("operand %s", s)
		}
		off = v
	}
	r, ok := u.reg(base)
	if !ok {
		giveUp("operand %s", s)
	}
	p, ok := st.fr.regs[r].(Ptr)
	if !ok {
		a.event(st, "oob", fmt.Sprintf("memory access through %s, which holds no valid address (%s)", base, vstr(st.fr.regs[r])))
		giveUp("memory access through %s, which holds no valid address (%s)", base, vstr(st.fr.regs[r]))
	}
	p = Ptr{p.obj, p.off.addC(off)}
	if idx != "" {
		sc := int64(1)
		if k := strings.IndexAny(idx, "*"); k >= 0 {
			sc, _ = strconv.ParseInt(idx[k+1:], 10, 64)
			idx = idx[:k]
		}
		sh := 0
		if k := strings.Index(idx, "<<"); k >= 0 {
			sh, _ = strconv.Atoi(idx[k+2:])
			idx = idx[:k]
		}
		ri, ok := u.reg(idx)
		if !ok {
			giveUp("operand %s", s)
		}
		l := a.toLin(st, st.fr.regs[ri], true)
		p.off = p.off.add(l.mulC(sc << uint(sh)))
	}
	return p
}

func isMem(s string) bool { return strings.Contains(s, "(") }

func (u *asmUnit) isAligned(p Ptr) bool {
	off := p.off
	for _, t := range off.ts {
		if aligned16[t.s] {
			r := off.addMul(t.s.lin(), bigM1)
			if t.c.Cmp(big1) == 0 {
				m, ok := r.modC(16)
				return ok && m == 0
			}
		}
	}
	if p.obj < 0 {
		if o, ok := u.f.base[p.obj]; ok && o.meta.kind == "const" {
			n, _ := o.size.int()
			m, ok := off.modC(16)
			return ok && m == 0 && n >= 16
		}
	}
	return false
}

func (u *asmUnit) needAlign(a *An, st *State, p Ptr, in asmIns) {
	if !u.isAligned(p) {
		a.event(st, "align", fmt.Sprintf("%s needs a 16-byte aligned operand, which is not guaranteed", in.op))
	}
}

func (u *asmUnit) checkFrameStore(a *An, st *State, p Ptr, n int64) {
	o := a.obj(st, p.obj)
	if o.meta.kind != "frame" {
		return
	}
	// locals only: the return address and the caller's frame lie above
	lim := u.frame
	if u.arch == "arm64" {
		lim = u.frame + 16
	}
	if !st.ctx.ge0(linC(lim).sub(p.off.addC(n))) || !st.ctx.ge0(p.off) {
		a.event(st, "oob", fmt.Sprintf("store of %d bytes at offset %s of the %d-byte stack frame", n, p.off, u.frame))
	}
}

// ldW loads a general-purpose value of n bytes.
func (u *asmUnit) ldW(a *An, st *State, p Ptr, n int64) Value {
	v := a.load(st, p, vkind{k: 'n', w: int(n * 8), size: n})
	return v
}
func (u *asmUnit) stW(a *An, st *State, p Ptr, v Value, n int64) {
	u.checkFrameStore(a, st, p, n)
	u.noUndef(a, st, p, v)
	if x, ok := v.(Num); ok && int64(x.w) != n*8 {
		v = num(int(n*8), tTrunc(int(n*8), x.term()))
	}
	a.store(st, p, v, vkind{k: 'n', w: int(n * 8), size: n})
}

func (u *asmUnit) noUndef(a *An, st *State, p Ptr, v Value) {
	if a.obj(st, p.obj).meta.kind == "frame" {
		return
	}
	bad := false
	switch x := v.(type) {
	case Num:
		bad = x.t != nil && x.t.undef
	case Vec:
		for _, t := range x {
			bad = bad || t.undef
		}
	}
	if bad {
		a.event(st, "undef", "stores a value that depends on an uninitialised register or stack slot")
	}
}

func (u *asmUnit) ldV(a *An, st *State, p Ptr) Vec {
	var v Vec
	if c, ok := a.load(st, p, vkind{k: 'v', size: 16}).(Vec); ok {
		return c
	}
	for j := range v {
		n, ok := a.load(st, Ptr{p.obj, p.off.addC(int64(4 * j))}, vkind{k: 'n', w: 32, size: 4}).(Num)
		if !ok {
			giveUp("vector load of a non-integer")
		}
		v[j] = n.term()
	}
	return v
}

func (u *asmUnit) stV(a *An, st *State, p Ptr, v Vec) {
	u.checkFrameStore(a, st, p, 16)
	u.noUndef(a, st, p, v)
	if a.obj(st, p.obj).meta.kind == "frame" {
		a.store(st, p, v, vkind{k: 'v', size: 16})
		return
	}
	for j := range v {
		a.store(st, Ptr{p.obj, p.off.addC(int64(4 * j))}, num(32, v[j]), vkind{k: 'n', w: 32, size: 4})
	}
}

func vbyte(v Vec, i int) *Term { return tTrunc(8, tShr(v[i/4], 8*(i%4))) }
func vecOf(bs [16]*Term) Vec {
	var v Vec
	for i := range v {
		x := tC(0)
		for j := 0; j < 4; j++ {
			x = tXor(x, tShl(32, bs[4*i+j], 8*j))
		}
		v[i] = x
	}
	return v
}

func (u *asmUnit) jump(a *An, st *State, b int, c B) []Out {
	return a.branch(st, c, u.succ[b][0], u.succ[b][1])
}

// cond evaluates a condition code from the flags.
func (u *asmUnit) cond(a *An, st *State, cc string) B {
	f, ok := st.fr.regs[rFlags].(asmFlags)
	if !ok {
		a.event(st, "undefbranch", "branch on flags that were not set")
		return freshBool("flags")
	}
	var x, y Num
	if f.op == "test" {
		n := a.binop(st, "&", asNum(f.x, f.w), asNum(f.y, f.w), f.w, false)
		x, y = n.(Num), numC(f.w, 0)
	} else {
		px, okx := f.x.(Ptr)
		py, oky := f.y.(Ptr)
		switch {
		case okx && oky && px.obj == py.obj:
			x, y = numL(f.w, px.off), numL(f.w, py.off)
			if cc == "<u" || cc == "<=u" || cc == ">u" || cc == ">=u" {
				cc = strings.TrimSuffix(cc, "u") // offsets within one object
			}
		case okx || oky:
			other := f.y
			p := px
			if oky && !okx {
				other, p = f.x, py
			}
			if n, ok := other.(Num); ok && (cc == "==" || cc == "!=") {
				if c, isc := n.term().isConst(); isc && c == 0 {
					e := F
					if p.nil() {
						e = Tr
					}
					if cc == "!=" {
						e = e.not()
					}
					return e
				}
			}
			giveUp("comparison of an address")
		default:
			x, y = asNum(f.x, f.w), asNum(f.y, f.w)
		}
	}
	signed := !strings.HasSuffix(cc, "u")
	for _, n := range []*Num{&x, &y} {
		if n.lin != nil {
			if _, ok := f.x.(Ptr); !ok {
				n.lin = fit(st.ctx, n.lin, f.w, signed)
			}
		}
	}
	op := strings.TrimSuffix(cc, "u")
	return a.cmp(st, op, x, y, f.w, signed)
}

func (u *asmUnit) addV(a *An, st *State, x, y Value, w int, sub bool) Value {
	px, okx := x.(Ptr)
	py, oky := y.(Ptr)
	switch {
	case okx && oky:
		if sub && px.obj == py.obj {
			return numL(w, px.off.sub(py.off))
		}
		giveUp("arithmetic on two addresses")
	case okx:
		l := a.toLin(st, y, true)
		if sub {
			return Ptr{px.obj, px.off.sub(l)}
		}
		return Ptr{px.obj, px.off.add(l)}
	case oky:
		if sub {
			giveUp("negated address")
		}
		return Ptr{py.obj, py.off.add(a.toLin(st, x, true))}
	}
	op := "+"
	if sub {
		op = "-"
	}
	return a.binop(st, op, asNum(x, w), asNum(y, w), w, false)
}

func sha1f(k int, b, c, d *Term) *Term {
	switch k {
	case 0:
		return tXor(tAnd(b, c), tAnd(tNot(32, b), d))
	case 2:
		return tXor(tXor(tAnd(b, c), tAnd(b, d)), tAnd(c, d))
	}
	return tXor(tXor(b, c), d)
}

package main

import (
	"fmt"
	"go/ast"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The C code of the cgo package as LLVM IR (clang -O0, allocas promoted).

type lty struct {
	k      byte // i p a s v f
	w      int
	n      int64
	elem   *lty
	fields []*lty
	packed bool
}

type lval struct {
	k     byte // r register, g global, c constant integer, n null, u undef, z zeroinitializer, a aggregate, e constant address, s string
	t     *lty
	reg   int
	name  string
	c     *big.Int
	elems []lval
	off   int64
	bytes []byte
}

type lins struct {
	op    string
	res   int // -1: none
	t     *lty
	t2    *lty
	args  []lval
	pred  string
	tgts  []int
	cases []*big.Int
	from  []int // phi: predecessor blocks
	fn    lval  // callee
	dbg   int
	deref bool // getelementptr: a load or store uses the address itself
}

type cFunc struct {
	m     *cUnit
	name  string
	ret   *lty
	parT  []*lty
	par   []int
	nreg  int
	names map[string]int
	blk   [][]lins
	succ  [][]int
	labs  map[string]int
	live  [][]int // registers to clear on entry of a block
	file  string
	line  int
	defd  bool
}

type cGlob struct {
	name string
	t    *lty
	init *lval
	ro   bool
	id   ObjID
}

type cUnit struct {
	file  string
	types map[string]*lty
	loc   map[int]string // DILocation: line
	mod   *cModule
	priv  map[string]bool
	subs  map[int][2]string // DISubprogram: file id, line
	files map[int]string
}

type cModule struct {
	psz   int64
	funcs map[string]*cFunc
	globs map[string]*cGlob
	cfg   Config
	f     *goFront
}

const clangBin = "/usr/lib/llvm-18/bin/"

func clangTarget(c Config) string {
	switch c.arch {
	case "arm64":
		return "aarch64-linux-gnu"
	case "arm":
		return "arm-linux-gnueabihf"
	case "386":
		return "i386-linux-gnu"
	}
	return "x86_64-linux-gnu"
}

// loadC compiles the C files of a cgo package to IR and parses it.
func loadC(f *goFront, dir string) (*cModule, error) {
	tmp, err := os.MkdirTemp("", "sca-c")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	ms, _ := filepath.Glob(filepath.Join(dir, "*.c"))
	sort.Strings(ms)
	flags, pre := cgoPreambles(f, dir)
	for i, p := range pre {
		n := filepath.Join(tmp, fmt.Sprintf("preamble%d.c", i))
		if err := os.WriteFile(n, []byte(p), 0o644); err != nil {
			return nil, err
		}
		ms = append(ms, n)
	}
	m := &cModule{psz: f.cfg.psz(), funcs: map[string]*cFunc{}, globs: map[string]*cGlob{}, cfg: f.cfg, f: f}
	for i, c := range ms {
		ll := filepath.Join(tmp, fmt.Sprintf("m%d.ll", i))
		args := append([]string{"--target=" + clangTarget(f.cfg), "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-I" + dir}, flags...)
		args = append(args, c, "-o", ll)
		if out, err := exec.Command(clangBin+"clang", args...).CombinedOutput(); err != nil {
			return nil, fmt.Errorf("clang %s: %v: %s", c, err, clip(string(out), 500))
		}
		out, err := exec.Command(clangBin+"opt", "-S", "-passes=mem2reg", ll, "-o", "-").Output()
		if err != nil {
			return nil, fmt.Errorf("opt %s: %v", c, err)
		}
		if err := m.parse(c, string(out)); err != nil {
			return nil, fmt.Errorf("%s: %v", c, err)
		}
	}
	return m, nil
}

// cgoPreambles returns the preambles of the package's Go files and their #cgo flags.
func cgoPreambles(f *goFront, dir string) (flags, pre []string) {
	es, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(es)
	for _, e := range es {
		if strings.HasSuffix(e, "_test.go") {
			continue
		}
		fl, err := parseGo(e)
		if err != nil {
			continue
		}
		for _, d := range fl.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				im, ok := s.(*ast.ImportSpec)
				if !ok || im.Path.Value != `"C"` {
					continue
				}
				doc := g.Doc
				if im.Doc != nil {
					doc = im.Doc
				}
				if doc == nil {
					continue
				}
				text := ""
				for _, c := range doc.List {
					t := c.Text
					if strings.HasPrefix(t, "//") {
						t = t[2:]
					} else {
						t = strings.TrimSuffix(strings.TrimPrefix(t, "/*"), "*/")
					}
					text += t + "\n"
				}
				var body []string
				for _, l := range strings.Split(text, "\n") {
					tl := strings.TrimSpace(l)
					if strings.HasPrefix(tl, "#cgo") {
						if i := strings.Index(tl, "CFLAGS:"); i > 0 {
							for _, w := range strings.Fields(tl[i+7:]) {
								flags = append(flags, strings.ReplaceAll(w, "${SRCDIR}", dir))
							}
						}
						l = ""
					}
					body = append(body, l)
				}
				pre = append(pre, fmt.Sprintf("#include <stddef.h>\n#line 1 %q\n%s\n", e, strings.Join(body, "\n")))
			}
		}
	}
	return
}

// ---- parsing

type lparse struct {
	s string
	i int
	u *cUnit
	f *cFunc
}

type parseErr struct{ msg string }

func (p *lparse) fail(f string, a ...any) {
	e := p.i + 60
	if e > len(p.s) {
		e = len(p.s)
	}
	panic(parseErr{fmt.Sprintf(f, a...) + " at " + p.s[p.i:e]})
}

func (p *lparse) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\t') {
		p.i++
	}
}
func (p *lparse) eof() bool { p.ws(); return p.i >= len(p.s) }
func (p *lparse) peek(x string) bool {
	p.ws()
	return strings.HasPrefix(p.s[p.i:], x)
}
func (p *lparse) eat(x string) bool {
	if p.peek(x) {
		p.i += len(x)
		return true
	}
	return false
}
func (p *lparse) need(x string) {
	if !p.eat(x) {
		p.fail("expected %q", x)
	}
}
func isWord(c byte) bool {
	return c == '_' || c == '.' || c == '$' || c == '-' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}
func (p *lparse) word() string {
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == '"' {
		j := p.i + 1
		for p.s[j] != '"' {
			j++
		}
		w := p.s[p.i+1 : j]
		p.i = j + 1
		return w
	}
	j := p.i
	for j < len(p.s) && isWord(p.s[j]) {
		j++
	}
	w := p.s[p.i:j]
	p.i = j
	return w
}
func (p *lparse) peekWord() string {
	i := p.i
	w := p.word()
	p.i = i
	return w
}

func (p *lparse) typ() *lty {
	p.ws()
	var t *lty
	switch {
	case p.eat("["):
		n, _ := strconv.ParseInt(p.word(), 10, 64)
		p.need("x")
		e := p.typ()
		p.need("]")
		t = &lty{k: 'a', n: n, elem: e}
	case p.eat("<{"):
		t = p.fields("}>")
		t.packed = true
	case p.eat("{"):
		t = p.fields("}")
	case p.eat("%"):
		n := p.word()
		t = p.u.types[n]
		if t == nil {
			p.fail("unknown type %s", n)
		}
	default:
		w := p.word()
		switch {
		case w == "ptr":
			t = &lty{k: 'p'}
		case w == "void":
			t = &lty{k: 'v'}
		case len(w) > 1 && w[0] == 'i' && w[1] >= '0' && w[1] <= '9':
			n, _ := strconv.Atoi(w[1:])
			t = &lty{k: 'i', w: n}
		default:
			p.fail("unknown type %q", w)
		}
	}
	return t
}

func (p *lparse) fields(end string) *lty {
	t := &lty{k: 's'}
	for !p.eat(end) {
		t.fields = append(t.fields, p.typ())
		p.eat(",")
	}
	return t
}

var paramAttrs = map[string]bool{"noundef": true, "nocapture": true, "readonly": true, "writeonly": true, "noalias": true, "nonnull": true, "signext": true, "zeroext": true, "immarg": true, "returned": true, "inreg": true}

func (p *lparse) attrs() {
	for {
		w := p.peekWord()
		if paramAttrs[w] {
			p.word()
			continue
		}
		if w == "align" {
			p.word()
			p.word()
			continue
		}
		if w == "dereferenceable" || w == "dereferenceable_or_null" {
			p.word()
			p.need("(")
			for !p.eat(")") {
				p.i++
			}
			continue
		}
		return
	}
}

// value of type t
func (p *lparse) value(t *lty) lval {
	p.ws()
	switch {
	case p.eat("%"):
		return lval{k: 'r', t: t, reg: p.reg(p.word())}
	case p.eat("@"):
		return lval{k: 'g', t: t, name: p.u.sym(p.word())}
	case p.eat("c\""):
		var bs []byte
		for p.s[p.i] != '"' {
			if p.s[p.i] == '\\' {
				v, _ := strconv.ParseUint(p.s[p.i+1:p.i+3], 16, 8)
				bs = append(bs, byte(v))
				p.i += 3
				continue
			}
			bs = append(bs, p.s[p.i])
			p.i++
		}
		p.i++
		return lval{k: 's', t: t, bytes: bs}
	case p.eat("["):
		return p.aggr(t, "]")
	case p.eat("<{"):
		return p.aggr(t, "}>")
	case p.eat("{"):
		return p.aggr(t, "}")
	}
	w := p.word()
	switch w {
	case "null":
		return lval{k: 'n', t: t}
	case "undef", "poison":
		return lval{k: 'u', t: t}
	case "zeroinitializer":
		return lval{k: 'z', t: t}
	case "true":
		return lval{k: 'c', t: t, c: big.NewInt(1)}
	case "false":
		return lval{k: 'c', t: t, c: big.NewInt(0)}
	case "getelementptr":
		p.eat("inbounds")
		p.need("(")
		st := p.typ()
		p.need(",")
		bt := p.typ()
		b := p.value(bt)
		off := int64(0)
		cur := st
		for n := 0; p.eat(","); n++ {
			it := p.typ()
			iv := p.value(it)
			if iv.k != 'c' {
				p.fail("constant address")
			}
			i := iv.c.Int64()
			if n == 0 {
				off += i * p.u.mod.size(st)
				continue
			}
			switch cur.k {
			case 'a':
				cur = cur.elem
				off += i * p.u.mod.size(cur)
			case 's':
				off += p.u.mod.fieldOff(cur, int(i))
				cur = cur.fields[i]
			}
		}
		p.need(")")
		if b.k == 'e' {
			return lval{k: 'e', t: bt, name: b.name, off: b.off + off}
		}
		return lval{k: 'e', t: bt, name: b.name, off: off}
	}
	c, ok := new(big.Int).SetString(w, 10)
	if !ok {
		p.fail("unknown value %q", w)
	}
	if t.k == 'i' && c.Sign() < 0 {
		c.Add(c, pow2(t.w))
	}
	return lval{k: 'c', t: t, c: c}
}

func (p *lparse) aggr(t *lty, end string) lval {
	v := lval{k: 'a', t: t}
	for !p.eat(end) {
		et := p.typ()
		v.elems = append(v.elems, p.value(et))
		p.eat(",")
	}
	return v
}

func (p *lparse) reg(n string) int {
	if p.f == nil {
		p.fail("register outside a function")
	}
	if i, ok := p.f.names[n]; ok {
		return i
	}
	i := p.f.nreg
	p.f.names[n] = i
	p.f.nreg++
	return i
}

func (u *cUnit) sym(n string) string {
	if u.priv[n] {
		return u.file + ":" + n
	}
	return n
}

func (m *cModule) align(t *lty) int64 {
	switch t.k {
	case 'i':
		n := int64(1)
		for n*8 < int64(t.w) {
			n *= 2
		}
		if n == 8 && m.cfg.arch == "386" {
			return 4
		}
		return n
	case 'p', 'f':
		return m.psz
	case 'a':
		return m.align(t.elem)
	case 's':
		if t.packed {
			return 1
		}
		a := int64(1)
		for _, f := range t.fields {
			if b := m.align(f); b > a {
				a = b
			}
		}
		return a
	}
	return 1
}

func up(x, a int64) int64 { return (x + a - 1) / a * a }

func (m *cModule) size(t *lty) int64 {
	switch t.k {
	case 'i':
		return up(int64((t.w+7)/8), m.align(t))
	case 'p', 'f':
		return m.psz
	case 'a':
		return t.n * m.size(t.elem)
	case 's':
		o := int64(0)
		for _, f := range t.fields {
			if !t.packed {
				o = up(o, m.align(f))
			}
			o += m.size(f)
		}
		return up(o, m.align(t))
	}
	return 0
}

func (m *cModule) fieldOff(t *lty, i int) int64 {
	o := int64(0)
	for j, f := range t.fields {
		if !t.packed {
			o = up(o, m.align(f))
		}
		if j == i {
			return o
		}
		o += m.size(f)
	}
	return o
}

func (m *cModule) kind(t *lty) vkind {
	switch t.k {
	case 'i':
		if t.w == 1 {
			return vkind{k: 'b', size: 1}
		}
		return vkind{k: 'n', w: t.w, size: int64(t.w / 8)}
	case 'p', 'f':
		return vkind{k: 'p', size: m.psz}
	}
	return vkind{k: 'a', size: m.size(t)}
}

// parse adds the definitions of one IR file.
func (m *cModule) parse(file, text string) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if pe, ok := e.(parseErr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(e)
		}
	}()
	u := &cUnit{file: filepath.Base(file), types: map[string]*lty{}, loc: map[int]string{}, mod: m, priv: map[string]bool{}, subs: map[int][2]string{}, files: map[int]string{}}
	lines := strings.Split(text, "\n")
	// first pass: types, private symbols, debug locations
	for _, l := range lines {
		switch {
		case strings.HasPrefix(l, "%") && strings.Contains(l, " = type "):
			u.types[l[1:strings.Index(l, " ")]] = &lty{k: 's'}
		case strings.HasPrefix(l, "@"):
			n := l[1:strings.Index(l, " ")]
			rest := l[len(n)+1:]
			if strings.HasPrefix(rest, " = internal") || strings.HasPrefix(rest, " = private") {
				u.priv[n] = true
			}
		case strings.HasPrefix(l, "define internal"):
			n := l[strings.Index(l, "@")+1:]
			u.priv[n[:strings.IndexByte(n, '(')]] = true
		case strings.HasPrefix(l, "!"):
			sp := strings.Index(l, " ")
			id, e := strconv.Atoi(l[1:sp])
			if e != nil {
				continue
			}
			if i := strings.Index(l, "!DILocation(line: "); i > 0 {
				r := l[i+len("!DILocation(line: "):]
				u.loc[id] = r[:strings.IndexAny(r, ",)")]
			}
			if i := strings.Index(l, "!DIFile(filename: \""); i > 0 {
				r := l[i+len("!DIFile(filename: \""):]
				u.files[id] = r[:strings.IndexByte(r, '"')]
			}
			if strings.Contains(l, "!DISubprogram(") {
				u.subs[id] = [2]string{between(l, "file: !", ","), between(l, "line: ", ",")}
			}
		}
	}
	for _, l := range lines {
		if strings.HasPrefix(l, "%") && strings.Contains(l, " = type ") {
			n := l[1:strings.Index(l, " ")]
			p := &lparse{s: l[strings.Index(l, " = type ")+8:], u: u}
			if strings.HasPrefix(p.s, "opaque") {
				continue
			}
			*u.types[n] = *p.typ()
		}
	}
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		switch {
		case strings.HasPrefix(l, "@"):
			m.global(u, l)
		case strings.HasPrefix(l, "define "):
			j := i
			for lines[j] != "}" {
				j++
			}
			m.function(u, l, lines[i+1:j])
			i = j
		}
	}
	return nil
}

func between(s, a, b string) string {
	i := strings.Index(s, a)
	if i < 0 {
		return ""
	}
	s = s[i+len(a):]
	if j := strings.Index(s, b); j >= 0 {
		return s[:j]
	}
	return s
}

func (m *cModule) global(u *cUnit, l string) {
	p := &lparse{s: l, u: u}
	p.need("@")
	n := u.sym(p.word())
	p.need("=")
	g := &cGlob{name: n}
	ext := false
	for {
		w := p.peekWord()
		if w == "global" || w == "constant" {
			g.ro = w == "constant"
			p.word()
			break
		}
		if w == "external" {
			ext = true
		}
		if w == "" {
			return // aliases and the like
		}
		p.word()
	}
	g.t = p.typ()
	if !ext {
		v := p.value(g.t)
		g.init = &v
	} else if m.globs[n] != nil {
		return
	}
	m.globs[n] = g
}

func (m *cModule) function(u *cUnit, head string, body []string) {
	p := &lparse{s: head, u: u}
	f := &cFunc{m: u, names: map[string]int{}, labs: map[string]int{}, defd: true}
	p.f = f
	p.need("define")
	for !p.peek("@") {
		w := p.peekWord()
		switch w {
		case "internal", "dso_local", "hidden", "linkonce_odr", "weak", "private", "zeroext", "signext", "noundef", "noalias":
			p.word()
			continue
		}
		f.ret = p.typ()
	}
	p.need("@")
	f.name = u.sym(p.word())
	p.need("(")
	for !p.eat(")") {
		t := p.typ()
		p.attrs()
		p.need("%")
		f.parT = append(f.parT, t)
		f.par = append(f.par, p.reg(p.word()))
		p.eat(",")
	}
	if id, err := strconv.Atoi(between(head, "!dbg !", " ")); err == nil {
		s := u.subs[id]
		fid, _ := strconv.Atoi(s[0])
		f.file = u.files[fid]
		f.line, _ = strconv.Atoi(s[1])
	}
	f.file = strings.TrimPrefix(f.file, repoDir+"/")
	// labels
	entry := strconv.Itoa(len(f.par))
	cur := -1
	type raw struct{ lines []string }
	var blocks []raw
	newBlock := func(n string) {
		f.labs[n] = len(blocks)
		blocks = append(blocks, raw{})
		cur = len(blocks) - 1
	}
	for k := 0; k < len(body); k++ {
		l := body[k]
		if l == "" {
			continue
		}
		if l[0] != ' ' {
			lab := l[:strings.IndexByte(l, ':')]
			newBlock(strings.Trim(lab, `"`))
			continue
		}
		if cur < 0 {
			newBlock(entry)
		}
		t := strings.TrimSpace(l)
		if strings.HasSuffix(t, "[") { // switch
			for !strings.HasPrefix(strings.TrimSpace(body[k+1]), "]") {
				k++
				t += " " + strings.TrimSpace(body[k])
			}
			k++
			t += " " + strings.TrimSpace(body[k])
		}
		if strings.Contains(t, "@llvm.dbg.") {
			continue
		}
		blocks[cur].lines = append(blocks[cur].lines, t)
	}
	f.blk = make([][]lins, len(blocks))
	f.succ = make([][]int, len(blocks))
	for b, r := range blocks {
		for _, l := range r.lines {
			in := m.instr(u, f, l)
			if in.op == "" {
				continue
			}
			f.blk[b] = append(f.blk[b], in)
			f.succ[b] = append(f.succ[b], in.tgts...)
		}
	}
	f.markDeref()
	f.liveness()
	m.funcs[f.name] = f
}

var lbin = map[string]bool{"add": true, "sub": true, "mul": true, "and": true, "or": true, "xor": true, "shl": true, "lshr": true, "ashr": true, "udiv": true, "sdiv": true, "urem": true, "srem": true}
var lflags = map[string]bool{"nuw": true, "nsw": true, "exact": true, "inbounds": true, "volatile": true, "tail": true, "musttail": true, "notail": true, "disjoint": true, "nneg": true, "samesign": true}

func (m *cModule) instr(u *cUnit, f *cFunc, l string) lins {
	in := lins{res: -1, dbg: -1}
	if i := strings.LastIndex(l, "!dbg !"); i >= 0 {
		in.dbg, _ = strconv.Atoi(strings.TrimRight(strings.TrimSpace(between(l[i:], "!dbg !", ",")), " "))
	}
	p := &lparse{s: l, u: u, f: f}
	if p.eat("%") {
		in.res = p.reg(p.word())
		p.need("=")
	}
	flags := func() {
		for lflags[p.peekWord()] {
			p.word()
		}
	}
	flags()
	in.op = p.word()
	flags()
	lab := func() int {
		p.need("label")
		p.need("%")
		n := p.word()
		b, ok := f.labs[n]
		if !ok {
			p.fail("unknown label %s", n)
		}
		return b
	}
	arg := func() lval {
		t := p.typ()
		p.attrs()
		return p.value(t)
	}
	switch in.op {
	case "alloca":
		in.t = p.typ()
		if p.eat(",") && !p.peek("align") && !p.peek("!") {
			in.args = append(in.args, arg())
		}
	case "load":
		in.t = p.typ()
		p.need(",")
		in.args = []lval{arg()}
	case "store":
		v := arg()
		p.need(",")
		in.args = []lval{v, arg()}
		in.t = v.t
	case "getelementptr":
		in.t = p.typ()
		for p.eat(",") {
			if p.peek("!") {
				break
			}
			in.args = append(in.args, arg())
		}
	case "icmp":
		in.pred = p.word()
		in.t = p.typ()
		a := p.value(in.t)
		p.need(",")
		in.args = []lval{a, p.value(in.t)}
	case "br":
		if p.peek("label") {
			in.tgts = []int{lab()}
			break
		}
		in.args = []lval{arg()}
		p.need(",")
		a := lab()
		p.need(",")
		in.tgts = []int{a, lab()}
	case "switch":
		in.args = []lval{arg()}
		in.t = in.args[0].t
		p.need(",")
		in.tgts = []int{lab()}
		p.need("[")
		for !p.eat("]") {
			v := arg()
			p.need(",")
			in.cases = append(in.cases, v.c)
			in.tgts = append(in.tgts, lab())
		}
	case "ret":
		t := p.typ()
		if t.k != 'v' {
			in.args = []lval{p.value(t)}
		}
	case "unreachable":
	case "phi":
		in.t = p.typ()
		for {
			p.need("[")
			in.args = append(in.args, p.value(in.t))
			p.need(",")
			p.need("%")
			n := p.word()
			in.from = append(in.from, f.labs[n])
			p.need("]")
			if !p.eat(",") || p.peek("!") {
				break
			}
		}
	case "select":
		c := arg()
		p.need(",")
		a := arg()
		p.need(",")
		in.args = []lval{c, a, arg()}
		in.t = a.t
	case "zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast":
		a := arg()
		p.need("to")
		in.args = []lval{a}
		in.t = a.t
		in.t2 = p.typ()
	case "freeze":
		in.args = []lval{arg()}
	case "call":
		p.attrs()
		for !p.peek("@") && !p.peek("%") {
			w := p.peekWord()
			if paramAttrs[w] || w == "fastcc" {
				p.word()
				continue
			}
			if p.eat("(") { // function type of a variadic callee
				d := 1
				for d > 0 {
					switch p.s[p.i] {
					case '(':
						d++
					case ')':
						d--
					}
					p.i++
				}
				continue
			}
			in.t = p.typ()
		}
		in.fn = p.value(&lty{k: 'p'})
		p.need("(")
		for !p.eat(")") {
			if p.peek("metadata") {
				return lins{}
			}
			in.args = append(in.args, arg())
			p.eat(",")
		}
	default:
		if lbin[in.op] {
			in.t = p.typ()
			a := p.value(in.t)
			p.need(",")
			in.args = []lval{a, p.value(in.t)}
			break
		}
		p.fail("unknown instruction %s", in.op)
	}
	return in
}

// liveness computes the registers that are dead on entry of each block.
func (f *cFunc) liveness() {
	n := len(f.blk)
	live := make([]map[int]bool, n)
	for b := range live {
		live[b] = map[int]bool{}
	}
	use := func(in lins) []int {
		var u []int
		for _, a := range in.args {
			if a.k == 'r' {
				u = append(u, a.reg)
			}
		}
		if in.fn.k == 'r' {
			u = append(u, in.fn.reg)
		}
		return u
	}
	for ch := true; ch; {
		ch = false
		for b := n - 1; b >= 0; b-- {
			cur := map[int]bool{}
			for _, s := range f.succ[b] {
				for r := range live[s] {
					cur[r] = true
				}
				for _, in := range f.blk[s] {
					if in.op != "phi" {
						break
					}
					delete(cur, in.res)
				}
				for _, in := range f.blk[s] {
					if in.op != "phi" {
						break
					}
					for k, fb := range in.from {
						if fb == b && in.args[k].k == 'r' {
							cur[in.args[k].reg] = true
						}
					}
				}
			}
			for i := len(f.blk[b]) - 1; i >= 0; i-- {
				in := f.blk[b][i]
				if in.op == "phi" {
					cur[in.res] = true // live as a block argument
					continue
				}
				if in.res >= 0 {
					delete(cur, in.res)
				}
				for _, r := range use(in) {
					cur[r] = true
				}
			}
			if len(cur) != len(live[b]) {
				live[b] = cur
				ch = true
			}
		}
	}
	f.live = make([][]int, n)
	keep := map[int]bool{}
	for _, bl := range f.blk {
		for _, in := range bl {
			if in.op == "alloca" {
				keep[in.res] = true
			}
		}
	}
	for b := range f.live {
		for r := 0; r < f.nreg; r++ {
			if !live[b][r] && !keep[r] {
				f.live[b] = append(f.live[b], r)
			}
		}
	}
}

// markDeref marks the address computations a load or store uses directly; for
// those the index into an array has to be one of the array's elements, even
// where the array is followed by other members of the same object.
func (f *cFunc) markDeref() {
	used := map[int]bool{}
	for _, bl := range f.blk {
		for _, in := range bl {
			switch {
			case in.op == "load" && in.args[0].k == 'r':
				used[in.args[0].reg] = true
			case in.op == "store" && in.args[1].k == 'r':
				used[in.args[1].reg] = true
			}
		}
	}
	for _, bl := range f.blk {
		for i := range bl {
			if bl[i].op == "getelementptr" {
				bl[i].deref = used[bl[i].res]
			}
		}
	}
}

// ---- Code interface

func (f *cFunc) short() string {
	if i := strings.LastIndexByte(f.name, ':'); i >= 0 {
		return f.name[i+1:]
	}
	return f.name
}
func (f *cFunc) Name() string      { return "C." + f.short() }
func (f *cFunc) NBlocks() int      { return len(f.blk) }
func (f *cFunc) Succs(b int) []int { return f.succ[b] }
func (f *cFunc) NInstr(b int) int  { return len(f.blk[b]) }
func (f *cFunc) PosOf(b, i int) string {
	line := strconv.Itoa(f.line)
	if b < len(f.blk) {
		for k := min(i, len(f.blk[b])-1); k >= 0; k-- {
			if l, ok := f.m.loc[f.blk[b][k].dbg]; ok {
				line = l
				break
			}
		}
	}
	return fmt.Sprintf("%s:%s (%s)", f.file, line, f.short())
}

func (f *cFunc) Edge(a *An, st *State, from, to int) {
	var vals []Value
	var regs []int
	for _, in := range f.blk[to] {
		if in.op != "phi" {
			break
		}
		for k, b := range in.from {
			if b == from {
				vals = append(vals, f.val(a, st, in.args[k]))
				regs = append(regs, in.res)
				break
			}
		}
	}
	for k, r := range regs {
		st.fr.regs[r] = vals[k]
	}
	for _, r := range f.live[to] {
		st.fr.regs[r] = nil
	}
}

func (f *cFunc) val(a *An, st *State, v lval) Value {
	m := f.m.mod
	switch v.k {
	case 'r':
		x := st.fr.regs[v.reg]
		if x == nil {
			giveUp("register without a value in %s", f.name)
		}
		return x
	case 'c':
		if v.t.w == 1 {
			if v.c.Sign() != 0 {
				return Bool{Tr}
			}
			return Bool{F}
		}
		if v.t.w == 32 {
			if t := ivTerm(v.c); t != nil {
				return num(32, t)
			}
		}
		return numL(v.t.w, linBig(v.c))
	case 'n':
		return Ptr{0, linC(0)}
	case 'z':
		return a.zeroOf(m.kind(v.t))
	case 'u':
		if v.t.k == 'i' && v.t.w > 1 {
			t := freshAtom("undef", v.t.w)
			t.undef = true
			return num(v.t.w, t)
		}
		return TopV{"undef"}
	case 'g':
		if m.globs[v.name] == nil {
			return FuncV{fn: v.name}
		}
		return Ptr{m.globObj(a, v.name), linC(0)}
	case 'e':
		return Ptr{m.globObj(a, v.name), linC(v.off)}
	}
	giveUp("constant of kind %c", v.k)
	return nil
}

// globObj returns the object of a C global after program start.
func (m *cModule) globObj(a *An, name string) ObjID {
	g := m.globs[name]
	if g == nil {
		giveUp("C global %s is not defined", name)
	}
	if g.id != 0 {
		return g.id
	}
	f := m.f
	f.gN--
	g.id = ObjID(f.gN)
	size := m.size(g.t)
	o := &Obj{meta: &ObjMeta{name: "C." + name, kind: "global", global: true, ro: false}, size: linC(size)}
	if g.ro {
		o.meta.kind = "const"
		o.meta.global = false
		o.meta.ro = true
	}
	if size > 0 {
		o.segs = []Seg{{linC(0), linC(size), cZero{}}}
	}
	if g.init == nil {
		giveUp("C global %s has no definition", name)
	}
	f.base[g.id] = o
	f.base[g.id] = m.fill(a, o, 0, *g.init)
	return g.id
}

func (m *cModule) fill(a *An, o *Obj, off int64, v lval) *Obj {
	size := m.size(v.t)
	put := func(c Value) *Obj {
		return a.writeSegs(emptyCtx, o, linC(off), linC(off+size), []Seg{{linC(0), linC(size), cCell{c}}})
	}
	switch v.k {
	case 'z', 'n':
		return o
	case 'c':
		return put(numL(v.t.w, linBig(v.c)))
	case 'g':
		if m.globs[v.name] == nil {
			return put(FuncV{fn: v.name})
		}
		return put(Ptr{m.globObj(a, v.name), linC(0)})
	case 'e':
		return put(Ptr{m.globObj(a, v.name), linC(v.off)})
	case 's':
		return a.writeSegs(emptyCtx, o, linC(off), linC(off+size), []Seg{{linC(0), linC(size), cSrc{&Stream{name: "const", data: v.bytes}, linC(0)}}})
	case 'a':
		if v.t.k == 'a' && v.t.elem.k == 'i' && v.t.elem.w > 1 {
			// one pass for arrays of integers
			var segs []Seg
			es := m.size(v.t.elem)
			ok := true
			for i, e := range v.elems {
				if e.k != 'c' {
					ok = false
					break
				}
				segs = append(segs, cell(int64(i)*es, es, numL(e.t.w, linBig(e.c))))
			}
			if ok {
				return a.writeSegs(emptyCtx, o, linC(off), linC(off+size), segs)
			}
		}
		for i, e := range v.elems {
			eo := off
			if v.t.k == 'a' {
				eo += int64(i) * m.size(v.t.elem)
			} else {
				eo += m.fieldOff(v.t, i)
			}
			o = m.fill(a, o, eo, e)
		}
		return o
	}
	giveUp("initialiser of kind %c", v.k)
	return nil
}

func unsgn(st *State, n Num) Num {
	if n.lin != nil {
		return Num{w: n.w, lin: fit(st.ctx, n.lin, n.w, false), t: n.t}
	}
	return n
}
func sgn(st *State, n Num) Num {
	if n.lin != nil {
		return Num{w: n.w, lin: fit(st.ctx, n.lin, n.w, true), t: n.t}
	}
	return n
}

func (f *cFunc) num(a *An, st *State, v lval) Num {
	x := f.val(a, st, v)
	switch n := x.(type) {
	case Num:
		return n
	case Bool:
		return num(8, bool2term(n.b))
	case TopV:
		return num(v.t.w, freshAtom("top("+n.why+")", v.t.w))
	}
	giveUp("integer expected, found %s", vstr(x))
	return Num{}
}

func (f *cFunc) ptr(a *An, st *State, v lval) Ptr {
	x := f.val(a, st, v)
	p, ok := x.(Ptr)
	if !ok {
		giveUp("pointer expected, found %s", vstr(x))
	}
	return p
}

func (f *cFunc) Step(a *An, st *State, b, i int) []Out {
	in := &f.blk[b][i]
	m := f.m.mod
	set := func(v Value) { st.fr.regs[in.res] = v }
	switch in.op {
	case "phi":
	case "alloca":
		n := int64(1)
		if len(in.args) > 0 {
			l, ok := a.linOf(st, f.num(a, st, in.args[0]), false)
			if !ok || !l.isConst() {
				giveUp("variable-length array")
			}
			n, _ = l.int()
		}
		set(Ptr{a.allocAt(st, f, b*100000+i, "local of "+f.short(), linC(n*m.size(in.t)), cUndef{}), linC(0)})
	case "load":
		p := f.ptr(a, st, in.args[0])
		if p.nil() {
			a.event(st, "nil", "load through a null pointer")
			return []Out{{kind: oPanic, st: st, msg: "null pointer dereference", pos: curPos}}
		}
		v := a.load(st, p, m.kind(in.t))
		f.noUndef(a, st, p, v, in)
		set(v)
	case "store":
		p := f.ptr(a, st, in.args[1])
		if p.nil() {
			a.event(st, "nil", "store through a null pointer")
			return []Out{{kind: oPanic, st: st, msg: "null pointer dereference", pos: curPos}}
		}
		v := f.val(a, st, in.args[0])
		if n, ok := v.(Num); ok {
			v = n
		}
		a.store(st, p, v, m.kind(in.t))
	case "getelementptr":
		p := f.ptr(a, st, in.args[0])
		off := linC(0)
		cur := in.t
		for k, x := range in.args[1:] {
			n := f.num(a, st, x)
			if k == 0 || cur.k == 'a' {
				arr := cur
				if k > 0 {
					cur = cur.elem
				}
				l := a.toLin(st, sgn(st, n), true)
				off = off.add(l.mulC(m.size(cur)))
				if k > 0 && in.deref && arr.n > 0 && !(st.ctx.ge0(l) && st.ctx.ge0(linC(arr.n-1).sub(l))) {
					a.event(st, "oob", fmt.Sprintf("element %s of an array of %d is accessed", l, arr.n))
				}
				continue
			}
			l, _ := a.linOf(st, n, false)
			c, ok := l.int()
			if !ok {
				giveUp("symbolic field index")
			}
			off = off.add(linC(m.fieldOff(cur, int(c))))
			cur = cur.fields[c]
		}
		if p.nil() {
			if c, ok := off.int(); ok && c == 0 {
				set(p)
				return nil
			}
			a.event(st, "nil", "address computed from a null pointer")
			set(Ptr{0, off})
			return nil
		}
		set(Ptr{p.obj, p.off.add(off)})
	case "icmp":
		set(Bool{f.icmp(a, st, in)})
	case "br":
		if len(in.args) == 0 {
			return []Out{{kind: oJump, st: st, to: in.tgts[0]}}
		}
		return a.branch(st, f.cond(a, st, in.args[0]), in.tgts[0], in.tgts[1])
	case "switch":
		x := unsgn(st, f.num(a, st, in.args[0]))
		var outs []Out
		cur := st
		for k, c := range in.cases {
			br := a.branch(cur, a.cmp(cur, "==", x, numL(x.w, linBig(c)), x.w, false), in.tgts[k+1], -1)
			cur = nil
			for _, o := range br {
				if o.to == -1 {
					cur = o.st
				} else {
					outs = append(outs, o)
				}
			}
			if cur == nil {
				return outs
			}
		}
		return append(outs, Out{kind: oJump, st: cur, to: in.tgts[0]})
	case "ret":
		var v Value = Tuple{}
		if len(in.args) > 0 {
			v = f.val(a, st, in.args[0])
		}
		for _, bl := range f.blk {
			for _, x := range bl {
				if x.op == "alloca" {
					if p, ok := st.fr.regs[x.res].(Ptr); ok {
						if q, ok := v.(Ptr); ok && q.obj == p.obj {
							a.event(st, "dangling", "returns the address of a local")
						}
						delete(st.mem, p.obj)
					}
				}
			}
		}
		return []Out{{kind: oRet, st: st, val: v}}
	case "unreachable":
		a.event(st, "unreachable", "unreachable code is reached")
		return []Out{{kind: oPanic, st: st, msg: "unreachable", pos: curPos}}
	case "select":
		c := a.resolve(st, f.cond(a, st, in.args[0]))
		x, y := f.val(a, st, in.args[1]), f.val(a, st, in.args[2])
		if c == Tr {
			set(x)
			return nil
		}
		if c == F {
			set(y)
			return nil
		}
		v, ok := a.mergeVal(st.ctx, c, x, y)
		if !ok {
			panic(needSplit{g: c})
		}
		set(v)
	case "zext", "sext", "trunc":
		if in.t.w == 1 {
			bv := f.cond(a, st, in.args[0])
			if in.op == "sext" {
				set(num(in.t2.w, tIte(bv, tC(wmask(in.t2.w)), tC(0))))
			} else {
				set(num(in.t2.w, bool2term(bv)))
			}
			return nil
		}
		x := f.num(a, st, in.args[0])
		if in.t2.w == 1 {
			set(Bool{bitOf(x.term(), 0)})
			return nil
		}
		if in.op == "sext" {
			set(unsgn(st, a.convInt(st, sgn(st, x), in.t.w, true, in.t2.w, true)))
			return nil
		}
		set(a.convInt(st, unsgn(st, x), in.t.w, false, in.t2.w, false))
	case "bitcast", "freeze", "ptrtoint", "inttoptr":
		set(f.val(a, st, in.args[0]))
	case "call":
		return f.call(a, st, in)
	default:
		set(f.arith(a, st, in))
	}
	return nil
}

// noUndef reports a read of memory that was never written.
func (f *cFunc) noUndef(a *An, st *State, p Ptr, v Value, in *lins) {
	bad := false
	switch x := v.(type) {
	case Num:
		bad = x.t != nil && x.t.undef
	case TopV:
		bad = x.why == "undef"
	}
	if bad {
		a.event(st, "uninit", "reads memory that was never written ("+a.obj(st, p.obj).meta.name+")")
	}
}

func (f *cFunc) cond(a *An, st *State, v lval) B {
	x := f.val(a, st, v)
	switch c := x.(type) {
	case Bool:
		return c.b
	case Num:
		return isZero(c.term()).not()
	}
	giveUp("condition is %s", vstr(x))
	return F
}

func (f *cFunc) icmp(a *An, st *State, in *lins) B {
	x, y := f.val(a, st, in.args[0]), f.val(a, st, in.args[1])
	isNil := func(v Value) (bool, bool) {
		switch p := v.(type) {
		case Ptr:
			return p.nil(), true
		case FuncV:
			return p.fn == nil, true
		}
		return false, false
	}
	if in.t.k == 'p' {
		px, ok1 := x.(Ptr)
		py, ok2 := y.(Ptr)
		if ok1 && ok2 && (in.pred == "eq" || in.pred == "ne") {
			b := a.ptrEq(st, px, py)
			if in.pred == "ne" {
				return b.not()
			}
			return b
		}
		if ok1 && ok2 && px.obj == py.obj {
			d := py.off.sub(px.off)
			switch in.pred {
			case "ult":
				return a.linGE(st, d.addC(-1))
			case "ule":
				return a.linGE(st, d)
			case "ugt":
				return a.linGE(st, d.neg().addC(-1))
			case "uge":
				return a.linGE(st, d.neg())
			}
		}
		nx, k1 := isNil(x)
		ny, k2 := isNil(y)
		if k1 && k2 && (in.pred == "eq" || in.pred == "ne") && (nx || ny) {
			r := F
			if nx && ny {
				r = Tr
			}
			if in.pred == "ne" {
				return r.not()
			}
			return r
		}
		giveUp("pointer comparison %s %s %s", vstr(x), in.pred, vstr(y))
	}
	if in.t.w == 1 {
		bx, by := f.cond(a, st, in.args[0]), f.cond(a, st, in.args[1])
		if in.pred == "eq" {
			return bx.xor(by).not()
		}
		return bx.xor(by)
	}
	nx, ny := f.num(a, st, in.args[0]), f.num(a, st, in.args[1])
	op := map[string]string{"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">=", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}[in.pred]
	signed := in.pred[0] == 's'
	if signed {
		nx, ny = sgn(st, nx), sgn(st, ny)
	} else {
		nx, ny = unsgn(st, nx), unsgn(st, ny)
	}
	return a.cmp(st, op, nx, ny, in.t.w, signed)
}

func (f *cFunc) arith(a *An, st *State, in *lins) Value {
	if in.t.w == 1 {
		x, y := f.cond(a, st, in.args[0]), f.cond(a, st, in.args[1])
		switch in.op {
		case "and":
			return Bool{x.and(y)}
		case "or":
			return Bool{x.or(y)}
		case "xor":
			return Bool{x.xor(y)}
		}
		giveUp("%s i1", in.op)
	}
	x, y := f.num(a, st, in.args[0]), f.num(a, st, in.args[1])
	op := map[string]string{"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^", "shl": "<<", "lshr": ">>", "ashr": ">>", "udiv": "/", "sdiv": "/", "urem": "%", "srem": "%"}[in.op]
	signed := in.op == "ashr" || in.op[0] == 's' && (in.op == "sdiv" || in.op == "srem")
	if signed {
		x, y = sgn(st, x), sgn(st, y)
	} else {
		x, y = unsgn(st, x), unsgn(st, y)
	}
	v := a.binop(st, op, x, y, in.t.w, signed)
	if n, ok := v.(Num); ok && signed {
		return unsgn(st, n)
	}
	return v
}

func (f *cFunc) call(a *An, st *State, in *lins) []Out {
	name := ""
	switch x := f.val(a, st, in.fn).(type) {
	case FuncV:
		name, _ = x.fn.(string)
	case Ptr:
		if x.nil() {
			a.event(st, "nil", "call through a null function pointer")
			return []Out{{kind: oPanic, st: st, msg: "null function pointer", pos: curPos}}
		}
		giveUp("call of a data pointer")
	default:
		giveUp("call of %s", vstr(x))
	}
	var args []Value
	for _, v := range in.args {
		args = append(args, f.val(a, st, v))
	}
	outs := a.callCName(st, f.m.mod, name, args)
	var res []Out
	for _, o := range outs {
		if o.kind == oRet {
			if in.res >= 0 {
				o.st.fr.regs[in.res] = o.val
			}
			res = append(res, Out{kind: oNext, st: o.st})
		} else {
			res = append(res, o)
		}
	}
	if len(res) == 1 && res[0].kind == oNext && res[0].st == st {
		return nil
	}
	if res == nil {
		return []Out{}
	}
	return res
}

// callC calls a C function from Go.
func (a *An) callC(st *State, name string, args []Value) []Out {
	if a.front.cmod == nil {
		giveUp("the C code is not loaded")
	}
	return a.callCName(st, a.front.cmod, name, args)
}

func (a *An) callCName(st *State, m *cModule, name string, args []Value) []Out {
	short := name[strings.LastIndexByte(name, ':')+1:]
	a.calls["C."+short]++
	if h, ok := a.hooks["C."+short]; ok {
		if outs, done := h(a, st, args); done {
			return outs
		}
	}
	fn := m.funcs[name]
	if fn == nil {
		return a.libc(st, name, args)
	}
	nf := &Frame{code: fn, regs: make([]Value, fn.nreg), parent: st.fr, depth: st.fr.depth + 1,
		key: fmt.Sprintf("%s>%d.%d", st.fr.key, curPos.b, curPos.i)}
	if len(nf.key) > 200 {
		nf.key = nf.key[len(nf.key)-200:]
	}
	for i, r := range fn.par {
		if i < len(args) {
			v := args[i]
			// Go integers become unsigned C values
			if n, ok := v.(Num); ok {
				v = unsgn(st, n)
			}
			nf.regs[r] = v
		}
	}
	caller := st.fr
	pos := curPos
	st.fr = nf
	outs := a.run(fn, st)
	curPos = pos
	for i := range outs {
		fr := *caller
		fr.regs = append([]Value{}, caller.regs...)
		outs[i].st.fr = &fr
	}
	return outs
}

func (a *An) libc(st *State, name string, args []Value) []Out {
	ptr := func(i int) Ptr {
		p, ok := args[i].(Ptr)
		if !ok {
			giveUp("%s: pointer expected, found %s", name, vstr(args[i]))
		}
		return p
	}
	switch {
	case strings.HasPrefix(name, "llvm.memcpy"), name == "memcpy", strings.HasPrefix(name, "llvm.memmove"), name == "memmove":
		d, s := ptr(0), ptr(1)
		n := a.toLin(st, unsgn(st, args[2].(Num)), false)
		if strings.Contains(name, "memcpy") && d.obj == s.obj && !d.nil() {
			e := d.off.sub(s.off)
			if !st.ctx.ge0(e.sub(n)) && !st.ctx.ge0(e.neg().sub(n)) && !st.ctx.eq0(n) && !st.ctx.eq0(e) {
				a.event(st, "overlap", "memcpy with overlapping operands")
			}
		}
		a.copyMem(st, d, s, n)
		return ret(st, d)
	case strings.HasPrefix(name, "llvm.memset"), name == "memset":
		d := ptr(0)
		n := a.toLin(st, unsgn(st, args[2].(Num)), false)
		t := args[1].(Num).term()
		c, ok := t.isConst()
		if !ok {
			giveUp("memset with a variable byte")
		}
		if c&0xff == 0 {
			a.zeroMem(st, d, n)
			return ret(st, d)
		}
		k, ok := n.int()
		if !ok || k > 4096 {
			giveUp("memset of symbolic length")
		}
		for i := int64(0); i < k; i++ {
			a.store(st, Ptr{d.obj, d.off.addC(i)}, numC(8, int64(c&0xff)), vkind{k: 'n', w: 8, size: 1})
		}
		return ret(st, d)
	case name == "abort", name == "exit", name == "__assert_fail":
		a.event(st, "abort", "reaches "+name)
		return []Out{{kind: oPanic, st: st, msg: name + " called", pos: curPos}}
	case strings.HasPrefix(name, "llvm.bswap."):
		n := args[0].(Num)
		t := tC(0)
		for i := 0; i < n.w/8; i++ {
			t = tXor(t, tShl(n.w, tTrunc(8, tShr(n.term(), 8*i)), n.w-8-8*i))
		}
		return ret(st, num(n.w, t))
	case strings.HasPrefix(name, "llvm.fshl."), strings.HasPrefix(name, "llvm.fshr."):
		x, y := args[0].(Num), args[1].(Num)
		k, ok := args[2].(Num).term().isConst()
		if !ok {
			giveUp("%s by a variable", name)
		}
		kk := int(k) % x.w
		if strings.Contains(name, "fshr") {
			kk = (x.w - kk) % x.w
		}
		if kk == 0 {
			return ret(st, x)
		}
		return ret(st, num(x.w, tOr(tShl(x.w, x.term(), kk), tShr(y.term(), x.w-kk))))
	case strings.HasPrefix(name, "llvm.lifetime."), strings.HasPrefix(name, "llvm.assume"), strings.HasPrefix(name, "llvm.donothing"):
		return ret(st, Tuple{})
	case name == "memcmp":
		d, s := ptr(0), ptr(1)
		n := a.toLin(st, unsgn(st, args[2].(Num)), false)
		k, ok := n.int()
		if !ok || k > 256 {
			giveUp("memcmp of symbolic length")
		}
		eq := Tr
		for i := int64(0); i < k; i++ {
			kd := vkind{k: 'n', w: 8, size: 1}
			x := a.load(st, Ptr{d.obj, d.off.addC(i)}, kd).(Num)
			y := a.load(st, Ptr{s.obj, s.off.addC(i)}, kd).(Num)
			eq = eq.and(eqTerms(8, x.term(), y.term()))
		}
		sg := freshAtom("memcmp sign", 32)
		return ret(st, num(32, tIte(eq, tC(0), tOr(tC(1), sg))))
	}
	giveUp("call of unknown C function %s", name)
	return nil
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Config is one build configuration of the analysed module.
type Config struct {
	name string
	arch string
	tags string
	cgo  bool
}

func (c Config) psz() int64 {
	switch c.arch {
	case "arm", "386", "mips", "mipsle":
		return 4
	}
	return 8
}

const modPath = "github.com/pjbgf/sha1cd"

// The sources under analysis; another copy only while developing the analyser.
var repoDir = func() string {
	if d := os.Getenv("SCA_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

func goEnv(c Config) []string {
	var env []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e+"=", '=')]
		switch k {
		case "GOARCH", "GOOS", "CGO_ENABLED", "CC", "GOFLAGS", "GOCACHE", "GOPATH", "GOMODCACHE", "GOROOT", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "GOWORK", "GOENV", "PATH", "GODEBUG", "CGO_CFLAGS":
			continue
		}
		env = append(env, e)
	}
	cc := "gcc"
	switch c.arch {
	case "arm64":
		cc = "aarch64-linux-gnu-gcc"
	case "arm":
		cc = "arm-linux-gnueabihf-gcc"
	}
	cg := "0"
	if c.cgo {
		cg = "1"
	}
	return append(env,
		"PATH="+goRoot+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOARCH="+c.arch, "GOOS=linux", "CGO_ENABLED="+cg, "CC="+cc, "GOFLAGS=-mod=readonly", "GOCACHE="+goCache,
		"GOPATH=/opt/vp/go", "GOMODCACHE=/opt/vp/go/pkg/mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOENV=off")
}

var (
	goRoot  = "/opt/veriftools/go1.26.10"
	goCache = "/verif/.cache/go"
)

type goFront struct {
	cfg    Config
	pkgs   []*packages.Package
	prog   *ssa.Program
	sizes  types.Sizes
	codes  map[*ssa.Function]*goCode
	globs  map[*ssa.Global]ObjID
	asm    map[string]asmFunc
	asmErr error
	base   map[ObjID]*Obj
	baseN  int
	gN     int
	// constants of the program as objects
	strs map[string]ObjID
	cmod *cModule
}

type asmFunc interface {
	Call(a *An, st *State, args []Value, sig *types.Signature, fn *ssa.Function) []Out
}

func loadGo(cfg Config) (*goFront, error) {
	args := []string{}
	if cfg.tags != "" {
		args = append(args, "-tags="+cfg.tags)
	}
	pc := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        repoDir,
		Env:        goEnv(cfg),
		BuildFlags: args,
	}
	pk, err := packages.Load(pc, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("configuration %s does not type-check: %s", cfg.name, strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	f := &goFront{cfg: cfg, pkgs: pk, prog: prog, sizes: types.SizesFor("gc", cfg.arch), codes: map[*ssa.Function]*goCode{},
		globs: map[*ssa.Global]ObjID{}, strs: map[string]ObjID{}}
	return f, nil
}

func (f *goFront) pkg(path string) *ssa.Package {
	for _, p := range f.prog.AllPackages() {
		if p.Pkg.Path() == path {
			return p
		}
	}
	return nil
}

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// ---- package initialisation

// initBase abstractly interprets the package initialisers of the module.
func (f *goFront) initBase() (a *An, err error) {
	a = newAn(f.cfg.psz())
	a.front = f
	a.inInit = true
	f.base = a.base
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecided); ok {
				err = fmt.Errorf("package initialisation not analysable: %s", u.msg)
				return
			}
			panic(e)
		}
	}()
	st := &State{pred: Tr, ctx: emptyCtx, mem: map[ObjID]*Obj{}, fr: &Frame{}}
	var paths []string
	for _, p := range f.prog.AllPackages() {
		if inModule(p.Pkg) {
			paths = append(paths, p.Pkg.Path())
		}
	}
	sort.Strings(paths)
	for _, pp := range paths {
		p := f.pkg(pp)
		outs := a.callFn(st, p.Func("init"), nil, nil)
		var rets []Out
		for _, o := range outs {
			if o.kind == oPanic {
				return nil, fmt.Errorf("package %s: initialisation may panic: %s", pp, o.msg)
			}
			rets = append(rets, o)
		}
		if len(rets) != 1 {
			return nil, fmt.Errorf("package %s: initialisation has %d outcomes", pp, len(rets))
		}
		st = rets[0].st
	}
	for id, o := range st.mem {
		m := *o.meta
		m.global = true
		a.base[id] = &Obj{&m, o.size, o.segs}
	}
	for g := range f.mutableGlobals() {
		id := a.globalObj(st, g)
		if o := f.base[id]; o != nil && len(o.segs) > 0 {
			f.base[id] = &Obj{o.meta, o.size, []Seg{{linC(0), o.size, cTop{"shared variable " + o.meta.name}}}}
		}
	}
	f.baseN = a.objN
	a.inInit = false
	return a, nil
}

// newRun returns an analysis instance that starts after package initialisation.
func (f *goFront) newRun() *An {
	a := newAn(f.cfg.psz())
	a.front = f
	a.base = f.base
	a.objN = f.baseN
	return a
}

func (a *An) globalObj(st *State, g *ssa.Global) ObjID {
	f := a.front
	if id, ok := f.globs[g]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	size := f.sizes.Sizeof(t)
	f.gN--
	id := ObjID(f.gN)
	f.globs[g] = id
	meta := &ObjMeta{name: g.Pkg.Pkg.Name() + "." + g.Name(), kind: "global", global: true}
	o := &Obj{meta: meta, size: linC(size)}
	if size > 0 {
		if inModule(g.Pkg.Pkg) {
			o.segs = []Seg{{linC(0), linC(size), cZero{}}}
		} else {
			meta.name = g.Pkg.Pkg.Path() + "." + g.Name()
			meta.kind = "extern"
			o.segs = []Seg{{linC(0), linC(size), cTop{"package variable " + meta.name}}}
		}
	}
	f.base[id] = o
	return id
}

// constStr returns an immutable object holding s.
func (a *An) constStr(s string) ObjID {
	f := a.front
	if id, ok := f.strs[s]; ok {
		return id
	}
	f.gN--
	id := ObjID(f.gN)
	f.strs[s] = id
	var segs []Seg
	if len(s) > 0 {
		segs = []Seg{{linC(0), linC(int64(len(s))), cSrc{&Stream{name: "const", data: []byte(s)}, linC(0)}}}
	}
	f.base[id] = &Obj{&ObjMeta{name: fmt.Sprintf("string constant %.20q", s), kind: "const", ro: true}, linC(int64(len(s))), segs}
	return id
}

// ---- types

func (f *goFront) kind(t types.Type) vkind {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		if b.Kind() == types.UntypedNil {
			return vkind{k: 'p', size: f.cfg.psz()}
		}
		t = types.Default(t)
	}
	size := f.sizes.Sizeof(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vkind{k: 'b', w: 8, size: 1}
		case u.Info()&types.IsInteger != 0:
			return vkind{k: 'n', w: int(size * 8), size: size}
		case u.Info()&types.IsString != 0:
			return vkind{k: 't', size: size}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return vkind{k: 'p', size: size}
		}
		return vkind{k: 'x', size: size, typ: t}
	case *types.Pointer, *types.Map, *types.Chan:
		return vkind{k: 'p', size: size}
	case *types.Slice:
		return vkind{k: 's', size: size}
	case *types.Interface:
		return vkind{k: 'i', size: size}
	case *types.Signature:
		return vkind{k: 'f', size: size}
	case *types.Struct, *types.Array:
		return vkind{k: 'a', size: size, typ: t}
	}
	return vkind{k: 'x', size: size, typ: t}
}

func intInfo(t types.Type, f *goFront) (w int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	w = int(f.sizes.Sizeof(t) * 8)
	return w, b.Info()&types.IsUnsigned == 0, true
}

// ---- code

type goCode struct {
	f     *ssa.Function
	fr    *goFront
	idx   map[ssa.Value]int
	nreg  int
	dead  [][]int // registers not live on entry to a block
	bidx  map[*ssa.BasicBlock]int
	name  string
	sites map[ssa.Instruction]int
}

func (f *goFront) code(fn *ssa.Function) *goCode {
	if c, ok := f.codes[fn]; ok {
		return c
	}
	c := &goCode{f: fn, fr: f, idx: map[ssa.Value]int{}, name: fn.RelString(nil), sites: map[ssa.Instruction]int{}}
	c.name = strings.ReplaceAll(c.name, modPath, "sha1cd")
	add := func(v ssa.Value) { c.idx[v] = c.nreg; c.nreg++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
			c.sites[i] = n
			n++
		}
	}
	// liveness
	nb := len(fn.Blocks)
	liveIn := make([]map[int]bool, nb)
	for i := range liveIn {
		liveIn[i] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := map[int]bool{}
			for _, s := range b.Succs {
				for r := range liveIn[s.Index] {
					live[r] = true
				}
				// phi uses along this edge
				for _, i := range s.Instrs {
					phi, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, c.idx[phi])
				}
			}
			for _, s := range b.Succs {
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, i := range s.Instrs {
						phi, ok := i.(*ssa.Phi)
						if !ok {
							break
						}
						if r, ok := c.idx[phi.Edges[pi]]; ok {
							live[r] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(live, c.idx[v])
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if r, ok := c.idx[*op]; ok {
						live[r] = true
					}
				}
			}
			// phi results are defined on entry
			for _, i := range b.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				live[c.idx[phi]] = true
			}
			if len(live) != len(liveIn[bi]) {
				ch = true
				liveIn[bi] = live
			}
		}
	}
	c.dead = make([][]int, nb)
	for bi := range liveIn {
		for r := 0; r < c.nreg; r++ {
			if !liveIn[bi][r] {
				c.dead[bi] = append(c.dead[bi], r)
			}
		}
	}
	f.codes[fn] = c
	return c
}

func (c *goCode) Name() string { return c.name }
func (c *goCode) NBlocks() int { return len(c.f.Blocks) }
func (c *goCode) Succs(b int) []int {
	var out []int
	for _, s := range c.f.Blocks[b].Succs {
		out = append(out, s.Index)
	}
	return out
}
func (c *goCode) NInstr(b int) int { return len(c.f.Blocks[b].Instrs) }
func (c *goCode) PosOf(b, i int) string {
	blk := c.f.Blocks[b]
	if i >= len(blk.Instrs) {
		i = len(blk.Instrs) - 1
	}
	pos := token.NoPos
	for k := i; k >= 0 && pos == token.NoPos; k-- {
		pos = blk.Instrs[k].Pos()
	}
	for k := i + 1; k < len(blk.Instrs) && pos == token.NoPos; k++ {
		pos = blk.Instrs[k].Pos()
	}
	if pos == token.NoPos {
		pos = c.f.Pos()
	}
	return fmt.Sprintf("%s (%s)", c.fr.posStr(pos), c.name)
}

func (f *goFront) posStr(pos token.Pos) string {
	if pos == token.NoPos {
		return "?"
	}
	p := f.prog.Fset.Position(pos)
	fn := p.Filename
	if r, err := filepath.Rel(repoDir, fn); err == nil && !strings.HasPrefix(r, "..") {
		fn = r
	} else if i := strings.Index(fn, "/src/"); i >= 0 {
		fn = fn[i+5:]
	}
	return fmt.Sprintf("%s:%d", fn, p.Line)
}

func (c *goCode) Edge(a *An, st *State, from, to int) {
	tb := c.f.Blocks[to]
	pi := -1
	for k, p := range tb.Preds {
		if p.Index == from {
			if pi >= 0 {
				if _, ok := tb.Instrs[0].(*ssa.Phi); ok {
					giveUp("ambiguous phi edge in %s", c.name)
				}
			}
			pi = k
		}
	}
	var vals []Value
	for _, i := range tb.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, c.val(a, st, phi.Edges[pi]))
	}
	for k := range vals {
		st.fr.regs[c.idx[tb.Instrs[k].(*ssa.Phi)]] = vals[k]
	}
	for _, r := range c.dead[to] {
		st.fr.regs[r] = nil
	}
}

func (c *goCode) set(st *State, v ssa.Value, x Value) { st.fr.regs[c.idx[v]] = x }

func (c *goCode) val(a *An, st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return c.constVal(a, v)
	case *ssa.Global:
		return Ptr{a.globalObj(st, v), linC(0)}
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Builtin:
		return FuncV{fn: v}
	}
	i, ok := c.idx[v]
	if !ok {
		giveUp("no register for %s", v.Name())
	}
	x := st.fr.regs[i]
	if x == nil {
		giveUp("register %s has no value in %s", v.Name(), c.name)
	}
	return x
}

func (c *goCode) constVal(a *An, v *ssa.Const) Value {
	k := c.fr.kind(v.Type())
	if v.Value == nil {
		return a.zeroOf(k)
	}
	switch v.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(v.Value) {
			return Bool{Tr}
		}
		return Bool{F}
	case constant.String:
		s := constant.StringVal(v.Value)
		if s == "" {
			return StrV{Ptr{0, linC(0)}, linC(0)}
		}
		return StrV{Ptr{a.constStr(s), linC(0)}, linC(int64(len(s)))}
	case constant.Int:
		if k.k != 'n' {
			return TopV{"constant of non-integer type"}
		}
		b, ok := constant.Val(v.Value).(*big.Int)
		if !ok {
			b = big.NewInt(constant.Val(v.Value).(int64))
		}
		if k.w == 32 {
			if t := ivTerm(b); t != nil {
				return num(32, t)
			}
		}
		return numL(k.w, linBig(b))
	}
	return TopV{"constant"}
}

func one(st *State) []Out { return []Out{{kind: oNext, st: st}} }

func (c *goCode) Step(a *An, st *State, b, i int) []Out {
	switch in := c.f.Blocks[b].Instrs[i].(type) {
	case *ssa.DebugRef, *ssa.Phi:
		return nil
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		c.set(st, in, Ptr{a.allocAt(st, c, c.sites[in], in.Comment, linC(c.fr.sizes.Sizeof(t)), cZero{}), linC(0)})
		return nil
	case *ssa.Store:
		p := c.ptr(a, st, in.Addr)
		v := c.val(a, st, in.Val)
		a.store(st, p, v, c.fr.kind(in.Val.Type()))
		return nil
	case *ssa.UnOp:
		c.set(st, in, c.unop(a, st, in))
		return nil
	case *ssa.BinOp:
		c.set(st, in, c.binopI(a, st, in.Op, c.val(a, st, in.X), c.val(a, st, in.Y), in.X.Type(), in.Y.Type(), in.Type()))
		return nil
	case *ssa.FieldAddr:
		p := c.ptr(a, st, in.X)
		stt := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if p.nil() {
			return a.nilDeref(st)
		}
		c.set(st, in, Ptr{p.obj, p.off.addC(c.fr.fieldOff(stt, in.Field))})
		return nil
	case *ssa.Field:
		stt := in.X.Type().Underlying().(*types.Struct)
		c.set(st, in, c.part(a, st, c.val(a, st, in.X), linC(c.fr.fieldOff(stt, in.Field)), in.Type()))
		return nil
	case *ssa.IndexAddr:
		return c.indexAddr(a, st, in)
	case *ssa.Index:
		return c.index(a, st, in, in.X, in.Index, in.Type())
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			return c.index(a, st, in, in.X, in.Index, in.Type())
		}
		giveUp("map lookup")
	case *ssa.Slice:
		return c.slice(a, st, in)
	case *ssa.SliceToArrayPointer:
		s := c.val(a, st, in.X).(SliceV)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !a.require(st, s.len.addC(-n), "slice to array pointer conversion") {
			return []Out{{kind: oPanic, st: st, msg: "slice too short for conversion to array pointer", pos: curPos}}
		}
		c.set(st, in, s.p)
		return nil
	case *ssa.Convert:
		c.set(st, in, c.convert(a, st, in, c.val(a, st, in.X), in.X.Type(), in.Type()))
		return nil
	case *ssa.MultiConvert:
		c.set(st, in, c.convert(a, st, in, c.val(a, st, in.X), in.X.Type(), in.Type()))
		return nil
	case *ssa.ChangeType:
		c.set(st, in, c.val(a, st, in.X))
		return nil
	case *ssa.ChangeInterface:
		c.set(st, in, c.val(a, st, in.X))
		return nil
	case *ssa.MakeInterface:
		c.set(st, in, Iface{typ: in.X.Type(), v: c.val(a, st, in.X)})
		return nil
	case *ssa.MakeClosure:
		fv := FuncV{fn: in.Fn.(*ssa.Function)}
		for _, x := range in.Bindings {
			fv.binds = append(fv.binds, c.val(a, st, x))
		}
		c.set(st, in, fv)
		return nil
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n := a.toLin(st, c.val(a, st, in.Len), true)
		k := a.toLin(st, c.val(a, st, in.Cap), true)
		if !st.ctx.ge0(n) || !st.ctx.ge0(k.sub(n)) {
			a.event(st, "oob", fmt.Sprintf("make: length %s, capacity %s may be out of range", n, k))
			st.ctx = st.ctx.withGE(n).withGE(k.sub(n))
		}
		id := a.allocAt(st, c, c.sites[in], "makeslice", k.mulC(c.fr.sizes.Sizeof(et)), cZero{})
		c.set(st, in, SliceV{Ptr{id, linC(0)}, n, k})
		return nil
	case *ssa.Extract:
		tp, ok := c.val(a, st, in.Tuple).(Tuple)
		if !ok {
			c.set(st, in, TopV{"tuple"})
			return nil
		}
		c.set(st, in, tp[in.Index])
		return nil
	case *ssa.TypeAssert:
		return c.typeAssert(a, st, in)
	case *ssa.Call:
		outs := c.call(a, st, in.Common(), in)
		return c.bindRet(a, st, outs, in)
	case *ssa.Defer:
		st.fr.defers = append(append([]Value{}, st.fr.defers...), deferred{in.Common(), c.captureArgs(a, st, in.Common())})
		return nil
	case *ssa.RunDefers:
		return c.runDefers(a, st)
	case *ssa.Jump:
		return []Out{{kind: oJump, st: st, to: c.f.Blocks[b].Succs[0].Index}}
	case *ssa.If:
		cond, ok := c.val(a, st, in.Cond).(Bool)
		if !ok {
			giveUp("condition is %s", vstr(c.val(a, st, in.Cond)))
		}
		return a.branch(st, cond.b, c.f.Blocks[b].Succs[0].Index, c.f.Blocks[b].Succs[1].Index)
	case *ssa.Return:
		var v Value = Tuple{}
		if len(in.Results) == 1 {
			v = c.val(a, st, in.Results[0])
		} else {
			t := Tuple{}
			for _, r := range in.Results {
				t = append(t, c.val(a, st, r))
			}
			v = t
		}
		return []Out{{kind: oRet, st: st, val: v, pos: curPos}}
	case *ssa.Panic:
		return []Out{{kind: oPanic, st: st, msg: "explicit panic", pos: curPos}}
	case *ssa.Range, *ssa.Next, *ssa.MapUpdate, *ssa.MakeMap, *ssa.MakeChan, *ssa.Send, *ssa.Select, *ssa.Go:
		giveUp("unsupported statement %s", in)
	default:
		giveUp("unsupported instruction %T", in)
	}
	return nil
}

type deferred struct {
	cc   *ssa.CallCommon
	args []Value
}

// branch resolves a condition and splits the state.
func (a *An) branch(st *State, b B, t, f int) []Out {
	b = a.resolve(st, b)
	if b > 1 && st.pred != Tr {
		if st.pred.implies(b) {
			b = Tr
		} else if st.pred.and(b) == F {
			b = F
		}
	}
	switch b {
	case Tr:
		return []Out{{kind: oJump, st: st, to: t}}
	case F:
		return []Out{{kind: oJump, st: st, to: f}}
	}
	a.cnt("branches", 1)
	if bm.hasUndef(b) {
		a.event(st, "undefbranch", "control flow depends on an uninitialised value")
	}
	s2 := st.clone()
	s2.pred = st.pred.and(b.not())
	st.pred = st.pred.and(b)
	return []Out{{kind: oJump, st: st, to: t}, {kind: oJump, st: s2, to: f}}
}

func (m *bddMgr) hasUndef(b B) bool {
	for _, v := range m.support(b) {
		at := m.atoms[v]
		if at.t != nil && at.t.undef {
			return true
		}
		for _, r := range at.bits {
			if r.t.undef {
				return true
			}
		}
	}
	return false
}

func (a *An) nilDeref(st *State) []Out {
	return []Out{{kind: oPanic, st: st, msg: "nil pointer dereference", pos: curPos}}
}

// allocAt allocates an object whose identity depends only on the allocation
// site, the call path and how many objects of that site are alive.
func (a *An) allocAt(st *State, c Code, site int, name string, size *Lin, init Content) ObjID {
	key := fmt.Sprintf("%s|%s|%d", st.fr.key, c.Name(), site)
	for n := 0; ; n++ {
		k := fmt.Sprintf("%s|%d", key, n)
		id, ok := a.siteIDs[k]
		if ok {
			if _, live := st.mem[id]; live {
				if n > 4 {
					a.gc(st)
					if _, live := st.mem[id]; !live {
						goto use
					}
				}
				continue
			}
		} else {
			a.objN++
			id = ObjID(a.objN)
			a.siteIDs[k] = id
		}
	use:
		var segs []Seg
		if z, ok := size.int(); !ok || z > 0 {
			segs = []Seg{{linC(0), size, init}}
		}
		st.mem[id] = &Obj{&ObjMeta{name: name, kind: "local", label: curPos.String()}, size, segs}
		return id
	}
}

func (f *goFront) fieldOff(s *types.Struct, i int) int64 {
	fs := make([]*types.Var, s.NumFields())
	for k := range fs {
		fs[k] = s.Field(k)
	}
	return f.sizes.Offsetsof(fs)[i]
}

func (c *goCode) ptr(a *An, st *State, v ssa.Value) Ptr {
	x := c.val(a, st, v)
	p, ok := x.(Ptr)
	if !ok {
		giveUp("pointer expected, found %s", vstr(x))
	}
	return p
}

// part reads a component of an aggregate value.
func (c *goCode) part(a *An, st *State, v Value, off *Lin, t types.Type) Value {
	k := c.fr.kind(t)
	switch v := v.(type) {
	case Agg:
		if k.size == 0 {
			return a.zeroOf(k)
		}
		o := &Obj{segs: v.segs}
		return a.simp(st, a.valOf(st.ctx, a.readSegs(st.ctx, o, off, off.addC(k.size)), k))
	case TopV:
		return a.topOf(k, v.why)
	}
	giveUp("aggregate expected, found %s", vstr(v))
	return nil
}

// require checks e >= 0; if it can fail it records an event and assumes it.
func (a *An) require(st *State, e *Lin, what string) bool {
	if st.ctx.ge0(e) {
		a.cnt("bounds", 1)
		return true
	}
	if st.ctx.ge0(e.neg().addC(-1)) {
		return false
	}
	a.event(st, "oob", fmt.Sprintf("%s not provably in range: need %s >= 0", what, e))
	st.ctx = st.ctx.withGE(e)
	return true
}

func (c *goCode) idxLin(a *An, st *State, v ssa.Value) *Lin {
	_, signed, _ := intInfo(v.Type(), c.fr)
	return a.toLin(st, c.val(a, st, v), signed)
}

func (c *goCode) indexAddr(a *An, st *State, in *ssa.IndexAddr) []Out {
	x := c.val(a, st, in.X)
	i := c.idxLin(a, st, in.Index)
	var p Ptr
	var n *Lin
	var et types.Type
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s, ok := x.(SliceV)
		if !ok {
			giveUp("slice expected, found %s", vstr(x))
		}
		p, n, et = s.p, s.len, t.Elem()
	case *types.Pointer:
		pp, ok := x.(Ptr)
		if !ok {
			giveUp("array pointer expected, found %s", vstr(x))
		}
		at := t.Elem().Underlying().(*types.Array)
		if pp.nil() {
			return a.nilDeref(st)
		}
		p, n, et = pp, linC(at.Len()), at.Elem()
	}
	if !a.require(st, i, "index") || !a.require(st, n.sub(i).addC(-1), "index") {
		return []Out{{kind: oPanic, st: st, msg: fmt.Sprintf("index %s out of range with length %s", i, n), pos: curPos}}
	}
	c.set(st, in, Ptr{p.obj, p.off.add(i.mulC(c.fr.sizes.Sizeof(et)))})
	return nil
}

func (c *goCode) index(a *An, st *State, in ssa.Value, X, I ssa.Value, rt types.Type) []Out {
	x := c.val(a, st, X)
	i := c.idxLin(a, st, I)
	switch t := X.Type().Underlying().(type) {
	case *types.Basic:
		s, ok := x.(StrV)
		if !ok {
			giveUp("string expected")
		}
		if !a.require(st, i, "string index") || !a.require(st, s.len.sub(i).addC(-1), "string index") {
			return []Out{{kind: oPanic, st: st, msg: "string index out of range", pos: curPos}}
		}
		c.set(st, in, a.load(st, Ptr{s.p.obj, s.p.off.add(i)}, vkind{k: 'n', w: 8, size: 1}))
	case *types.Array:
		if !a.require(st, i, "index") || !a.require(st, linC(t.Len()).sub(i).addC(-1), "index") {
			return []Out{{kind: oPanic, st: st, msg: "index out of range", pos: curPos}}
		}
		c.set(st, in, c.part(a, st, x, i.mulC(c.fr.sizes.Sizeof(t.Elem())), t.Elem()))
	default:
		giveUp("index of %s", X.Type())
	}
	return nil
}

func (c *goCode) slice(a *An, st *State, in *ssa.Slice) []Out {
	x := c.val(a, st, in.X)
	var p Ptr
	var n, cp *Lin
	es := int64(1)
	str := false
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s, ok := x.(SliceV)
		if !ok {
			giveUp("slice expected, found %s", vstr(x))
		}
		p, n, cp = s.p, s.len, s.cap
		es = c.fr.sizes.Sizeof(t.Elem())
	case *types.Pointer:
		pp, ok := x.(Ptr)
		if !ok {
			giveUp("array pointer expected, found %s", vstr(x))
		}
		if pp.nil() {
			return a.nilDeref(st)
		}
		at := t.Elem().Underlying().(*types.Array)
		p, n = pp, linC(at.Len())
		cp = n
		es = c.fr.sizes.Sizeof(at.Elem())
	case *types.Basic:
		s, ok := x.(StrV)
		if !ok {
			giveUp("string expected, found %s", vstr(x))
		}
		p, n, cp, str = s.p, s.len, s.len, true
	}
	lo, hi := linC(0), n
	if in.Low != nil {
		lo = c.idxLin(a, st, in.Low)
	}
	if in.High != nil {
		hi = c.idxLin(a, st, in.High)
	}
	mx := cp
	bad := []Out{{kind: oPanic, st: st, msg: fmt.Sprintf("slice bounds out of range [%s:%s] with length %s capacity %s", lo, hi, n, cp), pos: curPos}}
	if in.Max != nil {
		mx = c.idxLin(a, st, in.Max)
		if !a.require(st, cp.sub(mx), "slice capacity") {
			return bad
		}
	}
	if !a.require(st, lo, "slice lower bound") || !a.require(st, hi.sub(lo), "slice bounds order") || !a.require(st, mx.sub(hi), "slice upper bound") {
		return bad
	}
	np := Ptr{p.obj, p.off.add(lo.mulC(es))}
	if p.nil() {
		np = p
	}
	if str {
		c.set(st, in, StrV{np, hi.sub(lo)})
	} else {
		c.set(st, in, SliceV{np, hi.sub(lo), mx.sub(lo)})
	}
	return nil
}

func (c *goCode) unop(a *An, st *State, in *ssa.UnOp) Value {
	x := c.val(a, st, in.X)
	switch in.Op {
	case token.MUL:
		p, ok := x.(Ptr)
		if !ok {
			giveUp("load through %s", vstr(x))
		}
		k := c.fr.kind(in.Type())
		if !p.nil() {
			if o := a.obj(st, p.obj); o.meta.kind == "extern" && k.k == 'b' {
				off, _ := p.off.int()
				return Bool{featAtom(fmt.Sprintf("%s+%d", o.meta.name, off))}
			}
		}
		return a.load(st, p, k)
	case token.NOT:
		b, ok := x.(Bool)
		if !ok {
			giveUp("boolean expected, found %s", vstr(x))
		}
		return Bool{b.b.not()}
	case token.SUB:
		w, signed, ok := intInfo(in.Type(), c.fr)
		if !ok {
			giveUp("negation of %s", in.Type())
		}
		return a.binop(st, "-", numC(w, 0), asNum(x, w), w, signed)
	case token.XOR:
		w, signed, ok := intInfo(in.Type(), c.fr)
		if !ok {
			giveUp("complement of %s", in.Type())
		}
		n := asNum(x, w)
		if n.lin != nil && signed {
			return numL(w, n.lin.neg().addC(-1))
		}
		return num(w, tNot(w, n.term()))
	}
	giveUp("unary operator %s", in.Op)
	return nil
}

func asNum(v Value, w int) Num {
	switch x := v.(type) {
	case Num:
		return x
	case TopV:
		return num(w, freshAtom("top("+x.why+")", w))
	}
	giveUp("integer expected, found %s", vstr(v))
	return Num{}
}

func (c *goCode) binopI(a *An, st *State, op token.Token, x, y Value, tx, ty, tr types.Type) Value {
	if w, signed, ok := intInfo(tx, c.fr); ok {
		px, isPx := x.(Ptr)
		py, isPy := y.(Ptr)
		if isPx || isPy {
			if isPx && isPy && op == token.SUB && px.obj == py.obj {
				return numL(w, px.off.sub(py.off))
			}
			if isPx && !isPy && (op == token.ADD || op == token.SUB) {
				l := a.toLin(st, y, true)
				if op == token.SUB {
					l = l.neg()
				}
				return Ptr{px.obj, px.off.add(l)}
			}
			if isPy && !isPx && op == token.ADD {
				return Ptr{py.obj, py.off.add(a.toLin(st, x, true))}
			}
			giveUp("arithmetic on an address")
		}
		nx := asNum(x, w)
		switch op {
		case token.SHL, token.SHR:
			wy, sy, _ := intInfo(ty, c.fr)
			ny := asNum(y, wy)
			if sy {
				if l, ok := a.linOf(st, ny, true); ok && !st.ctx.ge0(l) {
					a.event(st, "panic", "shift count may be negative")
				}
			}
			return a.binop(st, map[token.Token]string{token.SHL: "<<", token.SHR: ">>"}[op], nx, ny, w, signed)
		}
		ny := asNum(y, w)
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return Bool{a.cmp(st, op.String(), nx, ny, w, signed)}
		case token.QUO, token.REM:
			z := a.cmp(st, "==", ny, numC(w, 0), w, signed)
			if z != F && st.pred.and(z) != F {
				a.event(st, "panic", "division by zero")
			}
		}
		return a.binop(st, op.String(), nx, ny, w, signed)
	}
	if _, ok := tr.Underlying().(*types.Basic); !ok {
		giveUp("operator %s on %s", op, tx)
	}
	switch op {
	case token.EQL, token.NEQ:
		b := c.equal(a, st, x, y, tx)
		if op == token.NEQ {
			b = b.not()
		}
		return Bool{b}
	case token.ADD:
		sx, ok1 := x.(StrV)
		sy, ok2 := y.(StrV)
		if ok1 && ok2 {
			return a.concat(st, c, sx, sy)
		}
	case token.AND, token.LAND:
		if bx, ok := x.(Bool); ok {
			return Bool{bx.b.and(y.(Bool).b)}
		}
	case token.OR, token.LOR:
		if bx, ok := x.(Bool); ok {
			return Bool{bx.b.or(y.(Bool).b)}
		}
	}
	giveUp("operator %s on %s", op, tx)
	return nil
}

func (a *An) concat(st *State, c Code, x, y StrV) Value {
	n := x.len.add(y.len)
	id := a.allocAt(st, c, -1, "string concatenation", n, cZero{})
	a.copyMem(st, Ptr{id, linC(0)}, x.p, x.len)
	a.copyMem(st, Ptr{id, x.len}, y.p, y.len)
	return StrV{Ptr{id, linC(0)}, n}
}

func (c *goCode) equal(a *An, st *State, x, y Value, t types.Type) B {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			sx, ok1 := x.(StrV)
			sy, ok2 := y.(StrV)
			if (!ok1 || !ok2) && (isTop(x) || isTop(y)) {
				return freshBool("unknown string")
			}
			if !ok1 || !ok2 {
				giveUp("string comparison of %s and %s", vstr(x), vstr(y))
			}
			return a.strEq(st, sx, sy)
		}
		if u.Info()&types.IsBoolean != 0 {
			bx, ok1 := x.(Bool)
			by, ok2 := y.(Bool)
			if ok1 && ok2 {
				return bx.b.xor(by.b).not()
			}
		}
	case *types.Interface:
		ix, ok1 := x.(Iface)
		iy, ok2 := y.(Iface)
		if ok1 && ok2 {
			nx := ix.typ == nil && ix.op == ""
			ny := iy.typ == nil && iy.op == ""
			if nx || ny {
				if nx == ny {
					return Tr
				}
				return F
			}
			if ix.op == "" && iy.op == "" {
				if !types.Identical(ix.typ, iy.typ) {
					return F
				}
				return c.equal(a, st, ix.v, iy.v, ix.typ)
			}
			if ix.op == iy.op {
				return Tr
			}
		}
		if !ok1 && !ok2 {
			break
		}
	case *types.Array:
		var r = Tr
		es := c.fr.sizes.Sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			ex := c.part(a, st, x, linC(i*es), u.Elem())
			ey := c.part(a, st, y, linC(i*es), u.Elem())
			r = r.and(c.equal(a, st, ex, ey, u.Elem()))
		}
		return r
	case *types.Struct:
		var r = Tr
		for i := 0; i < u.NumFields(); i++ {
			off := linC(c.fr.fieldOff(u, i))
			ft := u.Field(i).Type()
			r = r.and(c.equal(a, st, c.part(a, st, x, off, ft), c.part(a, st, y, off, ft), ft))
		}
		return r
	case *types.Slice:
		sx, ok1 := x.(SliceV)
		sy, ok2 := y.(SliceV)
		if ok1 && ok2 {
			// only nil comparisons are legal
			if sx.p.nil() && sy.p.nil() {
				return Tr
			}
			if sx.p.nil() != sy.p.nil() {
				return F
			}
		}
	case *types.Signature:
		fx, ok1 := x.(FuncV)
		fy, ok2 := y.(FuncV)
		if ok1 && ok2 {
			if (fx.fn == nil) == (fy.fn == nil) && fx.fn == nil {
				return Tr
			}
			if (fx.fn == nil) != (fy.fn == nil) {
				return F
			}
		}
	}
	if w, signed, ok := intInfo(t, c.fr); ok {
		return a.cmp(st, "==", asNum(x, w), asNum(y, w), w, signed)
	}
	px, ok1 := x.(Ptr)
	py, ok2 := y.(Ptr)
	if ok1 && ok2 {
		return a.ptrEq(st, px, py)
	}
	giveUp("comparison of %s and %s", vstr(x), vstr(y))
	return F
}

func (a *An) ptrEq(st *State, px, py Ptr) B {
	if px.obj != py.obj {
		return F
	}
	if px.nil() {
		return Tr
	}
	e := px.off.sub(py.off)
	if st.ctx.eq0(e) {
		return Tr
	}
	return a.linGE(st, e).and(a.linGE(st, e.neg()))
}

func (a *An) strEq(st *State, x, y StrV) B {
	d := x.len.sub(y.len)
	if !st.ctx.eq0(d) {
		g := a.linGE(st, d).and(a.linGE(st, d.neg()))
		if g == F {
			return F
		}
		a.resolve(st, g)
	}
	n, ok := x.len.int()
	if !ok {
		n, ok = y.len.int()
	}
	if !ok || n > 4096 {
		if a.valEq(st.ctx, x, y) {
			return Tr
		}
		giveUp("comparison of strings of unbounded length")
	}
	if n == 0 {
		return Tr
	}
	r := Tr
	ox, oy := a.obj(st, x.p.obj), a.obj(st, y.p.obj)
	sx := a.readSegs(st.ctx, ox, x.p.off, x.p.off.addC(n))
	sy := a.readSegs(st.ctx, oy, y.p.off, y.p.off.addC(n))
	for i := int64(0); i < n; i++ {
		r = r.and(eqTerms(8, a.byteOf(st.ctx, sx, i), a.byteOf(st.ctx, sy, i)))
	}
	return r
}

func (c *goCode) convert(a *An, st *State, in ssa.Instruction, x Value, from, to types.Type) Value {
	w1, s1, ok1 := intInfo(from, c.fr)
	w2, s2, ok2 := intInfo(to, c.fr)
	if ok1 && ok2 {
		if p, ok := x.(Ptr); ok {
			return p
		}
		return a.convInt(st, asNum(x, w1), w1, s1, w2, s2)
	}
	fu, tu := from.Underlying(), to.Underlying()
	isStr := func(t types.Type) bool {
		b, ok := t.(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	if s, ok := fu.(*types.Slice); ok && isStr(tu) {
		if c.fr.sizes.Sizeof(s.Elem()) == 1 {
			sv := x.(SliceV)
			id := a.allocAt(st, c, c.sites[in], "string", sv.len, cZero{})
			if !sv.p.nil() {
				a.copyMem(st, Ptr{id, linC(0)}, sv.p, sv.len)
			}
			return StrV{Ptr{id, linC(0)}, sv.len}
		}
	}
	if s, ok := tu.(*types.Slice); ok && isStr(fu) {
		if c.fr.sizes.Sizeof(s.Elem()) == 1 {
			sv := x.(StrV)
			id := a.allocAt(st, c, c.sites[in], "bytes", sv.len, cZero{})
			if !sv.p.nil() {
				a.copyMem(st, Ptr{id, linC(0)}, sv.p, sv.len)
			}
			return SliceV{Ptr{id, linC(0)}, sv.len, sv.len}
		}
	}
	if isStr(fu) && isStr(tu) {
		return x
	}
	pt := func(t types.Type) bool {
		if _, ok := t.(*types.Pointer); ok {
			return true
		}
		b, ok := t.(*types.Basic)
		return ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr)
	}
	if pt(fu) && pt(tu) {
		if n, ok := x.(Num); ok {
			if l, ok := a.linOf(st, n, false); ok && l.isConst() && l.k.Sign() == 0 {
				return Ptr{0, linC(0)}
			}
			giveUp("conversion of an integer to a pointer")
		}
		return x
	}
	giveUp("conversion from %s to %s", from, to)
	return nil
}

func (c *goCode) typeAssert(a *An, st *State, in *ssa.TypeAssert) []Out {
	x, ok := c.val(a, st, in.X).(Iface)
	if !ok {
		giveUp("interface expected, found %s", vstr(c.val(a, st, in.X)))
	}
	k := c.fr.kind(in.AssertedType)
	res := func(v Value, good bool) []Out {
		if in.CommaOk {
			b := F
			if good {
				b = Tr
			}
			c.set(st, in, Tuple{v, Bool{b}})
			return nil
		}
		if !good {
			return []Out{{kind: oPanic, st: st, msg: "type assertion to " + in.AssertedType.String() + " fails", pos: curPos}}
		}
		c.set(st, in, v)
		return nil
	}
	if x.op != "" {
		giveUp("type assertion on an opaque value")
	}
	if x.typ == nil {
		return res(a.zeroOf(k), false)
	}
	if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		if types.Implements(x.typ, it) {
			return res(x, true)
		}
		return res(Iface{}, false)
	}
	if types.Identical(x.typ, in.AssertedType) {
		return res(x.v, true)
	}
	return res(a.zeroOf(k), false)
}

// ---- calls

// bindRet turns the outcomes of a call into outcomes of the call instruction.
func (c *goCode) bindRet(a *An, st *State, outs []Out, in *ssa.Call) []Out {
	var res []Out
	for _, o := range outs {
		switch o.kind {
		case oRet:
			if in != nil {
				o.st.fr.regs[c.idx[in]] = o.val
			}
			res = append(res, Out{kind: oNext, st: o.st})
		case oPanic:
			if len(st.fr.defers) > 0 {
				giveUp("panic with deferred calls pending")
			}
			res = append(res, o)
		}
	}
	if res == nil {
		res = []Out{}
	}
	return res
}

func (c *goCode) captureArgs(a *An, st *State, cc *ssa.CallCommon) []Value {
	var args []Value
	if cc.IsInvoke() || cc.StaticCallee() == nil {
		args = append(args, c.val(a, st, cc.Value))
	}
	for _, x := range cc.Args {
		args = append(args, c.val(a, st, x))
	}
	return args
}

func (c *goCode) runDefers(a *An, st *State) []Out {
	states := []*State{st}
	var res []Out
	for len(states) > 0 {
		s := states[0]
		states = states[1:]
		n := len(s.fr.defers)
		if n == 0 {
			res = append(res, Out{kind: oNext, st: s})
			continue
		}
		d := s.fr.defers[n-1].(deferred)
		s.fr.defers = append([]Value{}, s.fr.defers[:n-1]...)
		for _, o := range c.callWith(a, s, d.cc, d.args, nil) {
			if o.kind == oRet {
				states = append(states, o.st)
			} else {
				res = append(res, o)
			}
		}
	}
	return res
}

func ret(st *State, v Value) []Out { return []Out{{kind: oRet, st: st, val: v}} }

func (c *goCode) call(a *An, st *State, cc *ssa.CallCommon, in ssa.Instruction) []Out {
	return c.callWith(a, st, cc, c.captureArgs(a, st, cc), in)
}

func (c *goCode) callWith(a *An, st *State, cc *ssa.CallCommon, args []Value, in ssa.Instruction) []Out {
	if cc.IsInvoke() {
		x, ok := args[0].(Iface)
		if !ok {
			giveUp("interface expected, found %s", vstr(args[0]))
		}
		if x.op != "" {
			if cc.Method.Name() == "Error" {
				return ret(st, a.opaqueStr(st, c, "error text"))
			}
			giveUp("method call %s on an opaque value", cc.Method.Name())
		}
		if x.typ == nil {
			return a.nilDeref(st)
		}
		fn := c.fr.prog.LookupMethod(x.typ, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			giveUp("method %s of %s not found", cc.Method.Name(), x.typ)
		}
		return a.callFn(st, fn, append([]Value{x.v}, args[1:]...), nil)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(a, st, b.Name(), cc, args[1:], in)
	}
	if fn := cc.StaticCallee(); fn != nil {
		var binds []Value
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, x := range mc.Bindings {
				binds = append(binds, c.val(a, st, x))
			}
		}
		return a.callFn(st, fn, args, binds)
	}
	fv, ok := args[0].(FuncV)
	if !ok {
		giveUp("function expected, found %s", vstr(args[0]))
	}
	if fv.fn == nil {
		return a.nilDeref(st)
	}
	fn, ok := fv.fn.(*ssa.Function)
	if !ok {
		giveUp("call of %v", fv.fn)
	}
	return a.callFn(st, fn, args[1:], fv.binds)
}

func (a *An) opaqueStr(st *State, c Code, name string) Value {
	n := newSym("strlen", big0, big.NewInt(1<<40))
	id := a.allocAt(st, c, -2, name, n.lin(), cTop{name})
	return StrV{Ptr{id, linC(0)}, n.lin()}
}

func featAtom(name string) B {
	return boolAtom("feat:"+name, func() batom { return batom{kind: "feat", name: name} })
}

// callFn calls fn; outcomes are oRet (with the caller's frame restored) and oPanic.
func (a *An) callFn(st *State, fn *ssa.Function, args, binds []Value) []Out {
	name := fn.RelString(nil)
	if fn.Origin() != nil {
		name = fn.Origin().RelString(nil)
	}
	a.calls[name]++
	if h, ok := a.hooks[name]; ok {
		if outs, done := h(a, st, args); done {
			return outs
		}
	}
	if outs, done := a.intrinsic(st, fn, name, args); done {
		return outs
	}
	if len(fn.Blocks) == 0 {
		if fn.Pkg != nil && inModule(fn.Pkg.Pkg) {
			f := a.front
			if f.asm == nil && f.asmErr == nil {
				f.asm, f.asmErr = loadAsm(f)
			}
			if f.asmErr != nil {
				giveUp("assembly not analysable: %v", f.asmErr)
			}
			if af, ok := f.asm[fn.Name()]; ok {
				return af.Call(a, st, args, fn.Signature, fn)
			}
		}
		giveUp("call of function %s without a body", name)
	}
	c := a.front.code(fn)
	nf := &Frame{code: c, regs: make([]Value, c.nreg), parent: st.fr, depth: st.fr.depth + 1,
		key: fmt.Sprintf("%s>%d.%d", st.fr.key, curPos.b, curPos.i)}
	if len(nf.key) > 200 {
		nf.key = nf.key[len(nf.key)-200:]
	}
	for i, p := range fn.Params {
		if i < len(args) {
			nf.regs[c.idx[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			nf.regs[c.idx[p]] = binds[i]
		}
	}
	caller := st.fr
	pos := curPos
	st.fr = nf
	outs := a.run(c, st)
	curPos = pos
	for i := range outs {
		f := *caller
		f.regs = append([]Value{}, caller.regs...)
		outs[i].st.fr = &f
	}
	return outs
}

func (a *An) intrinsic(st *State, fn *ssa.Function, name string, args []Value) ([]Out, bool) {
	if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && !inModule(fn.Pkg.Pkg) {
		return ret(st, Tuple{}), true
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg.Path()
	}
	switch pkg {
	case "fmt":
		switch fn.Name() {
		case "Sprintf", "Sprint", "Sprintln":
			return ret(st, a.opaqueStr(st, a.front.code(fn), "formatted text")), true
		case "Errorf":
			return ret(st, Iface{op: "error"}), true
		}
	case "runtime":
		if fn.Name() == "KeepAlive" {
			return ret(st, Tuple{}), true
		}
	case "sync":
		switch name {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			if p, ok := args[0].(Ptr); ok && !p.nil() && a.obj(st, p.obj).meta.global {
				a.syncd++
			}
			return ret(st, Tuple{}), true
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
			return ret(st, Tuple{}), true
		case "(*sync.Pool).Put":
			return ret(st, Tuple{}), true
		case "(*sync.Pool).Get":
			return a.poolGet(st, fn, args), true
		case "(*sync.Once).Do":
			if a.syncd == 0 {
				a.syncd++
				defer func() { a.syncd-- }()
				return a.callFn(st, fn, args, nil), true
			}
		}
	case "sync/atomic", "internal/runtime/atomic":
		if fn.Signature.Recv() == nil && len(args) > 0 {
			if r, ok := a.atomicOp(st, fn, args); ok {
				return r, true
			}
		}
	case "os", "syscall":
		switch fn.Name() {
		case "Getenv":
			return ret(st, TopV{"environment"}), true
		case "LookupEnv":
			return ret(st, Tuple{TopV{"environment"}, Bool{freshBool("environment")}}), true
		}
	case "unsafe":
	case "math/bits":
		if len(args) == 2 && (fn.Name() == "RotateLeft32" || fn.Name() == "RotateLeft64" || fn.Name() == "RotateLeft") {
			x, ok1 := args[0].(Num)
			k, ok2 := args[1].(Num)
			if ok1 && ok2 {
				if l, ok := a.linOf(st, k, true); ok {
					if n, ok := l.int(); ok {
						return ret(st, num(x.w, tRotl(x.w, x.term(), int(n%int64(x.w))))), true
					}
				}
			}
		}
	}
	if strings.HasPrefix(pkg, "github.com/klauspost/cpuid") {
		if r, ok := a.cpuid(st, fn, args); ok {
			return ret(st, Bool{r}), true
		}
	}
	if fn.Pkg != nil && inModule(fn.Pkg.Pkg) {
		switch {
		case strings.HasPrefix(fn.Name(), "_Cfunc_"):
			return a.callC(st, strings.TrimPrefix(fn.Name(), "_Cfunc_"), args), true
		case fn.Name() == "_cgoCheckPointer" || fn.Name() == "_cgoCheckResult" || fn.Name() == "_Cgo_use" || fn.Name() == "_Cgo_keepalive":
			return ret(st, Tuple{}), true
		}
		if a.inInit && strings.HasPrefix(fn.Name(), "_cgo") {
			return ret(st, Tuple{}), true
		}
	}
	return nil, false
}

// cpuid interprets the feature queries of the cpuid package.
func (a *An) cpuid(st *State, fn *ssa.Function, args []Value) (B, bool) {
	featName := func(v Value) (string, bool) {
		n, ok := v.(Num)
		if !ok {
			return "", false
		}
		l, ok := a.linOf(st, n, true)
		if !ok || !l.isConst() {
			return "", false
		}
		sc := fn.Pkg.Pkg.Scope()
		for _, nm := range sc.Names() {
			if cst, ok := sc.Lookup(nm).(*types.Const); ok && strings.HasSuffix(cst.Type().String(), ".FeatureID") {
				if v, ok := constant.Int64Val(cst.Val()); ok && big.NewInt(v).Cmp(l.k) == 0 {
					return nm, true
				}
			}
		}
		return l.String(), true
	}
	switch fn.Name() {
	case "Has":
		if n, ok := featName(args[1]); ok {
			return featAtom(n), true
		}
	case "Supports", "AnyOf":
		s, ok := args[1].(SliceV)
		if !ok {
			return F, false
		}
		n, ok := s.len.int()
		if !ok {
			return F, false
		}
		es := a.front.sizes.Sizeof(fn.Params[1].Type().Underlying().(*types.Slice).Elem())
		r := Tr
		if fn.Name() == "AnyOf" {
			r = F
		}
		for i := int64(0); i < n; i++ {
			v := a.load(st, Ptr{s.p.obj, s.p.off.addC(i * es)}, vkind{k: 'n', w: int(es * 8), size: es})
			nm, ok := featName(v)
			if !ok {
				return F, false
			}
			if fn.Name() == "AnyOf" {
				r = r.or(featAtom(nm))
			} else {
				r = r.and(featAtom(nm))
			}
		}
		return r, true
	}
	return F, false
}

func (c *goCode) builtin(a *An, st *State, name string, cc *ssa.CallCommon, args []Value, in ssa.Instruction) []Out {
	pw := int(c.fr.cfg.psz() * 8)
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case SliceV:
			if name == "cap" {
				return ret(st, numL(pw, x.cap))
			}
			return ret(st, numL(pw, x.len))
		case StrV:
			return ret(st, numL(pw, x.len))
		}
		t := cc.Args[0].Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if at, ok := t.(*types.Array); ok {
			return ret(st, numC(pw, at.Len()))
		}
		giveUp("%s of %s", name, vstr(args[0]))
	case "append":
		return c.appendB(a, st, args[0], args[1], cc, in)
	case "copy":
		d, ok := args[0].(SliceV)
		if !ok {
			giveUp("copy to %s", vstr(args[0]))
		}
		es := c.fr.sizes.Sizeof(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		var sp Ptr
		var sl *Lin
		switch s := args[1].(type) {
		case SliceV:
			sp, sl = s.p, s.len
		case StrV:
			sp, sl = s.p, s.len
		default:
			giveUp("copy from %s", vstr(args[1]))
		}
		n := sl
		switch st.ctx.decide(sl.sub(d.len)) {
		case 1:
			n = d.len
		case 0:
			if st.ctx.ge0(d.len.sub(sl)) {
				break
			}
			panic(needSplit{e: sl.sub(d.len)})
		}
		a.copyMem(st, d.p, sp, n.mulC(es))
		return ret(st, numL(pw, n))
	case "min", "max":
		r := args[0]
		w, signed, ok := intInfo(cc.Args[0].Type(), c.fr)
		if !ok {
			giveUp("%s of non-integers", name)
		}
		for _, y := range args[1:] {
			b := a.resolve(st, a.cmp(st, "<", asNum(y, w), asNum(r, w), w, signed))
			if name == "max" {
				b = a.resolve(st, a.cmp(st, "<", asNum(r, w), asNum(y, w), w, signed))
			}
			switch b {
			case Tr:
				r = y
			case F:
			default:
				r = num(w, tIte(b, asNum(y, w).term(), asNum(r, w).term()))
			}
		}
		return ret(st, r)
	case "clear":
		s, ok := args[0].(SliceV)
		if !ok {
			giveUp("clear of %s", vstr(args[0]))
		}
		es := c.fr.sizes.Sizeof(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		a.zeroMem(st, s.p, s.len.mulC(es))
		return ret(st, Tuple{})
	case "print", "println":
		return ret(st, Tuple{})
	case "recover":
		return ret(st, Iface{})
	case "Slice": // unsafe.Slice
		p, ok := args[0].(Ptr)
		if ok {
			n := a.toLin(st, args[1], true)
			return ret(st, SliceV{p, n, n})
		}
	case "SliceData", "StringData":
		switch s := args[0].(type) {
		case SliceV:
			return ret(st, s.p)
		case StrV:
			return ret(st, s.p)
		}
	case "String":
		if p, ok := args[0].(Ptr); ok {
			return ret(st, StrV{p, a.toLin(st, args[1], true)})
		}
	case "Add":
		if p, ok := args[0].(Ptr); ok {
			return ret(st, Ptr{p.obj, p.off.add(a.toLin(st, args[1], true))})
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.nil() {
			return a.nilDeref(st)
		}
		return ret(st, args[0])
	}
	giveUp("builtin %s", name)
	return nil
}

func (a *An) zeroMem(st *State, p Ptr, n *Lin) {
	a.fillMem(st, p, n, cZero{})
}

func (a *An) fillMem(st *State, p Ptr, n *Lin, c Content) {
	if st.ctx.eq0(n) {
		return
	}
	if p.nil() {
		a.event(st, "nil", "write through nil pointer")
		return
	}
	o := a.obj(st, p.obj)
	no := a.writeSegs(st.ctx, o, p.off, p.off.add(n), []Seg{{linC(0), n, c}})
	a.inBounds(st, o, p.off, n, "write")
	a.noteStore(st, o, p.off, n)
	st.mem[p.obj] = no
}

var capSyms = map[string]Sym{}

func (c *goCode) appendB(a *An, st *State, x, y Value, cc *ssa.CallCommon, in ssa.Instruction) []Out {
	s, ok := x.(SliceV)
	if !ok {
		giveUp("append to %s", vstr(x))
	}
	es := c.fr.sizes.Sizeof(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
	var sp Ptr
	var n *Lin
	switch v := y.(type) {
	case SliceV:
		sp, n = v.p, v.len
	case StrV:
		sp, n = v.p, v.len
	default:
		giveUp("append of %s", vstr(y))
	}
	nl := s.len.add(n)
	if st.ctx.eq0(n) {
		return ret(st, s)
	}
	switch st.ctx.decide(s.cap.sub(nl)) {
	case 1:
		a.copyMem(st, Ptr{s.p.obj, s.p.off.add(s.len.mulC(es))}, sp, n.mulC(es))
		return ret(st, SliceV{s.p, nl, s.cap})
	case 0:
		panic(needSplit{e: s.cap.sub(nl)})
	}
	if a.onGrow != nil && a.syncd == 0 {
		a.onGrow(a, st)
	}
	key := fmt.Sprintf("%s|%s", curPos, nl.key())
	cs, ok := capSyms[key]
	if !ok {
		cs = newSym("cap", big0, new(big.Int).Sub(pow2(62), big1))
		capSyms[key] = cs
		syms[cs].axioms = []Constraint{{cs.lin().sub(nl), false}}
	}
	var segs []Seg
	if !s.p.nil() && !st.ctx.eq0(s.len) {
		o := a.obj(st, s.p.obj)
		segs = append(segs, a.readSegs(st.ctx, o, s.p.off, s.p.off.add(s.len.mulC(es)))...)
	}
	o := a.obj(st, sp.obj)
	a.inBounds(st, o, sp.off, n.mulC(es), "read")
	for _, g := range a.readSegs(st.ctx, o, sp.off, sp.off.add(n.mulC(es))) {
		segs = append(segs, Seg{g.lo.add(s.len.mulC(es)), g.hi.add(s.len.mulC(es)), g.c})
	}
	st.ctx = st.ctx.withGE(cs.lin().sub(nl))
	segs = append(segs, Seg{nl.mulC(es), cs.lin().mulC(es), cZero{}})
	id := a.allocAt(st, c, c.sites[in], "append", cs.lin().mulC(es), cZero{})
	st.mem[id] = &Obj{st.mem[id].meta, cs.lin().mulC(es), segs}
	a.cnt("grow", 1)
	return ret(st, SliceV{Ptr{id, linC(0)}, nl, cs.lin()})
}

func init() {
	os.Setenv("PATH", goRoot+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
}

// atomicOp interprets the functions of sync/atomic as plain accesses. Package
// variables changed this way by the API hold unknown values, see mutableGlobals.
func (a *An) atomicOp(st *State, fn *ssa.Function, args []Value) ([]Out, bool) {
	p, ok := args[0].(Ptr)
	if !ok {
		return nil, false
	}
	pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	if p.nil() {
		return a.nilDeref(st), true
	}
	k := a.front.kind(pt.Elem())
	put := func(v Value) {
		a.syncd++
		a.store(st, p, v, k)
		a.syncd--
	}
	name := fn.Name()
	switch {
	case strings.HasPrefix(name, "Load"):
		return ret(st, a.load(st, p, k)), true
	case strings.HasPrefix(name, "Store"):
		put(args[1])
		return ret(st, Tuple{}), true
	case strings.HasPrefix(name, "Swap"):
		old := a.load(st, p, k)
		put(args[1])
		return ret(st, old), true
	case strings.HasPrefix(name, "Add"):
		x, ok1 := a.load(st, p, k).(Num)
		y, ok2 := args[1].(Num)
		if !ok1 || !ok2 {
			return nil, false
		}
		v := a.binop(st, "+", x, y, x.w, false)
		put(v)
		return ret(st, v), true
	case strings.HasPrefix(name, "CompareAndSwap"):
		old := a.load(st, p, k)
		b := a.front.code(fn).equal(a, st, old, args[1], pt.Elem())
		switch b {
		case Tr:
			put(args[2])
			return ret(st, Bool{Tr}), true
		case F:
			return ret(st, Bool{F}), true
		}
		t := st.clone()
		t.pred = t.pred.and(b)
		st.pred = st.pred.and(b.not())
		s0 := st
		st = t
		put(args[2])
		return append(ret(t, Bool{Tr}), ret(s0, Bool{F})...), true
	}
	return nil, false
}

// poolGet returns what New makes, with any contents: an object put back
// earlier keeps what was left in it.
func (a *An) poolGet(st *State, fn *ssa.Function, args []Value) []Out {
	p, ok := args[0].(Ptr)
	if !ok || p.nil() {
		giveUp("sync.Pool without an address")
	}
	if a.front.poolsCleared() {
		giveUp("sync.Pool whose objects may be cleared before Put")
	}
	stt := fn.Params[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() != "New" {
			continue
		}
		fv, ok := a.load(st, Ptr{p.obj, p.off.addC(a.front.fieldOff(stt, i))}, a.front.kind(stt.Field(i).Type())).(FuncV)
		if !ok || fv.fn == nil {
			giveUp("sync.Pool without New")
		}
		f, ok := fv.fn.(*ssa.Function)
		if !ok {
			giveUp("sync.Pool: New is %v", fv.fn)
		}
		outs := a.callFn(st, f, nil, fv.binds)
		for _, o := range outs {
			if o.kind != oRet {
				continue
			}
			x, ok := o.val.(Iface)
			if !ok || x.typ == nil {
				giveUp("sync.Pool: New returns %s", vstr(o.val))
			}
			q, ok := x.v.(Ptr)
			if !ok || q.nil() {
				giveUp("sync.Pool of %s", x.typ)
			}
			ob := a.obj(o.st, q.obj)
			if n, ok := ob.size.int(); !ok || n > 0 {
				o.st.mem[q.obj] = &Obj{ob.meta, ob.size, []Seg{{linC(0), ob.size, cTop{"pooled memory"}}}}
			}
		}
		return outs
	}
	giveUp("sync.Pool: no field New")
	return nil
}

// poolsCleared: some function that puts an object back also clears memory.
func (f *goFront) poolsCleared() bool {
	for fn := range allFuncs(f) {
		if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) {
			continue
		}
		puts, clears := false, false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if k, ok := x.Val.(*ssa.Const); ok && (k.Value == nil || k.IsNil() || k.Value.String() == "0") {
						for _, r := range rootsOf(x.Addr, map[ssa.Value]bool{}) {
							switch r.(type) {
							case *ssa.Call, *ssa.Parameter, *ssa.FreeVar:
								clears = true
							}
						}
					}
				case ssa.CallInstruction:
					if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "clear" {
						clears = true
					}
					if g := x.Common().StaticCallee(); g != nil && g.RelString(nil) == "(*sync.Pool).Put" {
						puts = true
					}
				}
			}
		}
		if puts && clears {
			return true
		}
	}
	return false
}

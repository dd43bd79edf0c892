package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// goHash describes the representation of the Go hash found in the program.
type goHash struct {
	f      *goFront
	pkg    *ssa.Package
	typ    *types.Named
	st     *types.Struct
	size   int64
	fields map[string]fieldRole // h, x, nx, len, col
	extra  []fieldRole
	news   Agg // contents of a new hash
	// fields without a known role: changed by some operation, assumed arbitrary
	extraChanged, topExtra map[string]bool
	feat                   B    // processor features assumed
	c                      bool // the cgo package
}

type fieldRole struct {
	name string
	off  int64
	k    vkind
	typ  types.Type
}

// leaves flattens a struct into its fields, entering nested structs.
func (f *goFront) leaves(st *types.Struct, base int64, top bool) []fieldRole {
	var all []fieldRole
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		off := base + f.fieldOff(st, i)
		if n, ok := v.Type().Underlying().(*types.Struct); ok {
			all = append(all, f.leaves(n, off, false)...)
			continue
		}
		all = append(all, fieldRole{v.Name(), off, f.kind(v.Type()), v.Type()})
	}
	return all
}

// roles finds the fields holding the chaining value, the buffer, the buffered
// and total length and the verdict; news are the contents of a new hash.
func (f *goFront) roles(a *An, st *types.Struct, news []Seg) (map[string]fieldRole, []fieldRole) {
	all := f.leaves(st, 0, true)
	isIV := func(fr fieldRole) bool {
		for j := int64(0); j < 5; j++ {
			n, ok := a.valOf(emptyCtx, a.readSegs(emptyCtx, &Obj{segs: news}, linC(fr.off+4*j), linC(fr.off+4*j+4)), vkind{k: 'n', w: 32, size: 4}).(Num)
			if !ok {
				return false
			}
			if c, ok := n.term().isConst(); ok && c != 0 {
				return true
			}
			if n.term().hj >= 0 {
				return true
			}
		}
		return false
	}
	want := map[string]func(fr fieldRole) bool{
		"h": func(fr fieldRole) bool {
			a, ok := fr.typ.Underlying().(*types.Array)
			return ok && a.Len() == 5 && f.sizes.Sizeof(a.Elem()) == 4 && isIV(fr)
		},
		"x": func(fr fieldRole) bool {
			a, ok := fr.typ.Underlying().(*types.Array)
			return ok && a.Len() == 64 && f.sizes.Sizeof(a.Elem()) == 1
		},
		"nx": func(fr fieldRole) bool {
			b, ok := fr.typ.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint64 && b.Kind() != types.Int32
		},
		"len": func(fr fieldRole) bool {
			b, ok := fr.typ.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0 && fr.k.size == 8
		},
		"col": func(fr fieldRole) bool {
			b, ok := fr.typ.Underlying().(*types.Basic)
			return fr.k.k == 'b' || ok && b.Info()&types.IsInteger != 0 && fr.k.size <= 4
		},
	}
	names := map[string][]string{"h": {"h", "ihv"}, "x": {"x", "buffer", "buf"}, "nx": {"nx"}, "len": {"len", "total"}, "col": {"col", "found_collision", "collision"}}
	out := map[string]fieldRole{}
	used := map[int]bool{}
	order := []string{"h", "x", "nx", "len", "col"}
	for _, r := range order {
		for i, fr := range all {
			for _, nm := range names[r] {
				if _, ok := out[r]; !ok && fr.name == nm && want[r](fr) && !used[i] {
					out[r] = fr
					used[i] = true
				}
			}
		}
	}
	for _, r := range order {
		if _, ok := out[r]; ok {
			continue
		}
		for pass := 0; pass < 2; pass++ {
			for i, fr := range all {
				if _, ok := out[r]; ok || used[i] || !want[r](fr) {
					continue
				}
				// a boolean is preferred for the verdict; a length takes a signed 64-bit field only if there is nothing else
				if pass == 0 && r == "col" && fr.k.k != 'b' {
					continue
				}
				out[r] = fr
				used[i] = true
			}
		}
	}
	var extra []fieldRole
	for i, fr := range all {
		if !used[i] {
			extra = append(extra, fr)
		}
	}
	return out, extra
}

// colVal is a verdict as the type of the verdict field.
func (h *goHash) colVal(b B) Value {
	k := h.fields["col"].k
	if k.k == 'b' {
		return Bool{b}
	}
	return num(k.w, bool2term(b))
}

// colOf reads the verdict of a hash.
func (h *goHash) colOf(a *An, st *State, id ObjID) (B, bool) {
	switch v := h.field(a, st, id, "col").(type) {
	case Bool:
		return v.b, true
	case Num:
		t := v.term()
		b := isZero(t).not()
		if t != bool2term(b) {
			return F, false
		}
		return b, true
	}
	return F, false
}

// nxOf is the number of buffered bytes if there is a field for it.
func (h *goHash) nxOf(a *An, st *State, id ObjID) *Lin {
	if _, ok := h.fields["nx"]; !ok {
		return nil
	}
	return a.toLin(st, h.field(a, st, id, "nx"), true)
}

func (h *goHash) parts(hs [5]*Term, x []Seg, nx, total *Lin, col B) map[string][]Seg {
	var w []Seg
	for j := 0; j < 5; j++ {
		w = append(w, cell(int64(4*j), 4, num(32, hs[j])))
	}
	m := map[string][]Seg{
		"h":   w,
		"x":   x,
		"len": {cell(0, 8, numL(64, fit(emptyCtx, total, 64, false)))},
		"col": {cell(0, h.fields["col"].k.size, h.colVal(col))},
	}
	if f, ok := h.fields["nx"]; ok {
		m["nx"] = []Seg{cell(0, f.k.size, numL(int(f.k.size*8), nx))}
	}
	return m
}

// call runs a function from a harness state and returns its outcomes.
func (a *An) harness(st *State, fn *ssa.Function, args ...Value) []Out {
	return a.callFn(st, fn, args, nil)
}

func newState() *State {
	return &State{pred: Tr, ctx: emptyCtx, mem: map[ObjID]*Obj{}, fr: &Frame{key: "root"}}
}

// findHash determines the hash type by analysing New.
func (f *goFront) findHash(pkgPath string) (*goHash, error) {
	p := f.pkg(pkgPath)
	if p == nil {
		return nil, fmt.Errorf("package %s not found", pkgPath)
	}
	fn := p.Func("New")
	if fn == nil {
		return nil, fmt.Errorf("%s.New not found", pkgPath)
	}
	a := f.newRun()
	st := newState()
	outs := a.harness(st, fn)
	if len(outs) != 1 || outs[0].kind != oRet {
		return nil, fmt.Errorf("New has %d outcomes", len(outs))
	}
	iv, ok := outs[0].val.(Iface)
	if !ok || iv.typ == nil {
		return nil, fmt.Errorf("New does not return a concrete value: %s", vstr(outs[0].val))
	}
	pt, ok := iv.typ.(*types.Pointer)
	if !ok {
		return nil, fmt.Errorf("New returns %s", iv.typ)
	}
	nt, ok := pt.Elem().(*types.Named)
	if !ok {
		return nil, fmt.Errorf("New returns %s", iv.typ)
	}
	h := &goHash{f: f, pkg: p, typ: nt, feat: Tr, extraChanged: map[string]bool{}, topExtra: map[string]bool{}}
	h.st, ok = nt.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("hash type %s is not a struct", nt)
	}
	h.size = f.sizes.Sizeof(nt)
	pv, ok := iv.v.(Ptr)
	if !ok || pv.nil() {
		return nil, fmt.Errorf("New returns %s", vstr(iv.v))
	}
	o := a.obj(outs[0].st, pv.obj)
	h.news = Agg{h.size, o.segs}
	h.fields, h.extra = f.roles(a, h.st, o.segs)
	for _, r := range []string{"h", "x", "len", "col"} {
		if _, ok := h.fields[r]; !ok {
			return nil, fmt.Errorf("the hash type has no field with the role of %s", r)
		}
	}
	if p2 := nt.Obj().Pkg(); p2 != nil && p2.Path() != pkgPath {
		h.pkg = f.pkg(p2.Path())
	}
	return h, nil
}

func (h *goHash) method(name string) *ssa.Function {
	t := types.NewPointer(h.typ)
	sel := h.f.prog.MethodSets.MethodSet(t).Lookup(h.pkg.Pkg, name)
	if sel == nil {
		return nil
	}
	return h.f.prog.MethodValue(sel)
}

// fieldSeg lays out the fields of a hash object.
func (h *goHash) build(a *An, st *State, vals map[string][]Seg) ObjID {
	segs := h.news.segs
	o := &Obj{&ObjMeta{name: "the hash", kind: "input"}, linC(h.size), segs}
	for r, ss := range vals {
		fr, ok := h.fields[r]
		if !ok {
			continue
		}
		o = a.writeSegs(emptyCtx, o, linC(fr.off), linC(fr.off+fr.k.size), ss)
	}
	a.lazySize, a.lazyRegions = h.size, nil
	for _, e := range h.extra {
		if h.topExtra[e.name] {
			a.lazyRegions = append(a.lazyRegions, [2]int64{e.off, e.off + e.k.size})
			o = a.writeSegs(emptyCtx, o, linC(e.off), linC(e.off+e.k.size), []Seg{{linC(0), linC(e.k.size), cTop{"field " + e.name}}})
		}
	}
	id := a.newObj(st, o.meta, o.size, o.segs)
	a.roots = append(a.roots, id)
	return id
}

func (h *goHash) field(a *An, st *State, id ObjID, r string) Value {
	fr := h.fields[r]
	return a.load(st, Ptr{id, linC(fr.off)}, fr.k)
}

func (h *goHash) hWord(a *An, st *State, id ObjID, j int) Value {
	fr := h.fields["h"]
	return a.load(st, Ptr{id, linC(fr.off + int64(4*j))}, vkind{k: 'n', w: 32, size: 4})
}

func cell(off, n int64, v Value) Seg { return Seg{linC(off), linC(off + n), cCell{v}} }

// guard runs fn and converts an undecided panic into an error.
func guard(fn func()) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecided); ok {
				err = fmt.Errorf("%s", strings.ReplaceAll(u.msg, "\n", " "))
				return
			}
			if s, ok := e.(needSplit); ok {
				err = fmt.Errorf("undecided condition %v", s)
				return
			}
			panic(e)
		}
	}()
	fn()
	return nil
}

func dvmaskHook(a *An, st *State, args []Value) ([]Out, bool) {
	var ws []*Term
	switch x := args[0].(type) {
	case Ptr:
		if x.nil() {
			return nil, false
		}
		for i := int64(0); i < 80; i++ {
			n, ok := a.load(st, Ptr{x.obj, x.off.addC(4 * i)}, vkind{k: 'n', w: 32, size: 4}).(Num)
			if !ok {
				giveUp("mask input is not an integer")
			}
			ws = append(ws, n.term())
		}
	default:
		return nil, false
	}
	a.cnt("dvmask", 1)
	return ret(st, num(32, dvmaskUF(ws))), true
}

// dvmaskHookC is the same for the C function, which clears bits of a mask.
func dvmaskHookC(a *An, st *State, args []Value) ([]Out, bool) {
	if len(args) != 2 {
		return nil, false
	}
	d, ok := args[1].(Ptr)
	if !ok || d.nil() {
		return nil, false
	}
	k := vkind{k: 'n', w: 32, size: 4}
	outs, ok := dvmaskHook(a, st, args[:1])
	if !ok {
		return nil, false
	}
	m := outs[0].val.(Num)
	// the C function stores the mask, whatever was there
	a.store(st, d, m, k)
	return ret(st, Tuple{}), true
}

func maskHooks(a *An) {
	a.hooks[modPath+"/ubc.CalculateDvMask"] = dvmaskHook
	a.hooks["C.ubc_check"] = dvmaskHookC
}

// oneBlock analyses Write of exactly one block at position c with an empty
// buffer, and returns the resulting states.
type blockOut struct {
	st  *State
	h   [5]*Term
	col B
	// Write returned an error
	refused bool
}

func (h *goHash) oneBlock(c *Lin, feat B) ([]blockOut, *An) {
	var h0 [5]*Term
	for j := range h0 {
		h0[j] = hAtom(j, c)
	}
	return h.block(c, feat, h0, colAtom(c), []Seg{{linC(0), linC(64), cSrc{msgStream, c}}})
}

// block analyses Write of one given block at position c.
func (h *goHash) block(c *Lin, feat B, h0 [5]*Term, col B, content []Seg) ([]blockOut, *An) {
	a := h.f.newRun()
	maskHooks(a)
	st := newState()
	st.pred = feat
	hid := h.build(a, st, h.parts(h0, []Seg{{linC(0), linC(64), cTop{"old buffer contents"}}}, linC(0), c, col))
	in := a.newObj(st, &ObjMeta{name: "caller's data", kind: "input", ro: true}, linC(64), content)
	a.roots = append(a.roots, in)
	a.onGrow = func(a *An, st *State) { a.event(st, "grow", "processing a block may allocate in append") }
	outs := a.harness(st, h.method("Write"), Ptr{hid, linC(0)}, SliceV{Ptr{in, linC(0)}, linC(64), linC(64)})
	var res []blockOut
	for _, o := range outs {
		if o.kind == oPanic {
			a.event(o.st, "panic", o.msg)
			continue
		}
		b := blockOut{st: o.st}
		if tv, ok := o.val.(Tuple); ok && len(tv) == 2 {
			isNil, known := isNilErr(tv[1])
			b.refused = known && !isNil
		}
		for j := 0; j < 5; j++ {
			n, ok := h.hWord(a, o.st, hid, j).(Num)
			if !ok {
				giveUp("chaining word %d is not an integer", j)
			}
			b.h[j] = n.term()
		}
		cb, ok := h.colOf(a, o.st, hid)
		if !ok {
			giveUp("collision flag is not a boolean")
		}
		b.col = cb
		res = append(res, b)
	}
	return res, a
}

var msgStream = &Stream{name: "msg"}

func symC() *Lin {
	q := newSym("Q", big0, new(big.Int).Sub(pow2(58), big1))
	return q.lin().mulC(64)
}

// ivTerm maps the five initial-value constants to the chaining value at
// position 0, so that an initialised state is the state after no blocks.
func ivTerm(b *big.Int) *Term {
	if !b.IsUint64() {
		return nil
	}
	for j, v := range sha1Init {
		if b.Uint64() == v {
			return hAtom(j, linC(0))
		}
	}
	return nil
}

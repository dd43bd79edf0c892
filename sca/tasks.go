package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Build configurations of the Go code under analysis.
var goConfigs = map[string]Config{
	"noasm":    {"noasm", "amd64", "noasm", false},
	"amd64":    {"amd64", "amd64", "", false},
	"arm64":    {"arm64", "arm64", "", false},
	"arm":      {"arm", "arm", "", false},
	"cgo":      {"cgo", "amd64", "", true},
	"cgoarm64": {"cgoarm64", "arm64", "", true},
	"cgoarm":   {"cgoarm", "arm", "", true},
}

// ctl is a task that could not be carried out.
type taskError struct{ msg string }

func (e taskError) Error() string { return e.msg }

// runTask performs one analysis task in this process.
func runTask(name string) *Report {
	rp := newReport(name)
	ps := strings.Split(name, ":")
	switch ps[0] {
	case "block", "write", "sum", "misc", "oneshot", "fallback":
		f, h := openGo(rp, ps[1])
		if h == nil {
			return rp
		}
		_ = f
		switch ps[0] {
		case "block":
			h.taskBlock(rp)
		case "write":
			part := ""
			if len(ps) > 3 {
				part = ps[3]
			}
			h.taskWrite(rp, atoi(ps[2]), part)
		case "sum", "oneshot", "fallback":
			h.taskSum(rp, atoi(ps[2]), ps[3], ps[0] != "sum", ps[0] == "fallback")
		case "misc":
			h.taskMisc(rp)
		}
	case "tables":
		taskTables(rp)
	case "mask":
		taskMask(rp)
	case "maskc":
		taskMaskC(rp)
	case "api":
		taskAPI(rp)
	case "calls":
		taskCalls(rp)
	case "effects":
		taskEffects(rp)
	case "alloc":
		taskAlloc(rp, ps[1])
	default:
		rp.und("task", "unknown task "+name)
	}
	return rp
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

// allProps marks a failure that concerns every property of the task.
var allProps = []string{"*"}

func openGo(rp *Report, cfg string) (*goFront, *goHash) {
	f, err := loadGo(goConfigs[cfg])
	if err != nil {
		rp.und("load", err.Error(), allProps...)
		return nil, nil
	}
	if _, err = f.initBase(); err != nil {
		rp.und("init", err.Error(), allProps...)
		return nil, nil
	}
	var h *goHash
	pk := modPath
	if f.cfg.cgo {
		pk = modPath + "/cgo"
		rp.remap = cgoProps
		if f.cmod, err = loadC(f, repoDir+"/cgo"); err != nil {
			rp.und("c", err.Error(), allProps...)
			return nil, nil
		}
	}
	if e := guard(func() { h, err = f.findHash(pk) }); e != nil {
		err = e
	}
	if err != nil {
		rp.und("hash", err.Error(), allProps...)
		return nil, nil
	}
	h.c = f.cfg.cgo
	h.findMutable()
	return f, h
}

// cgoProps maps the properties of the Go hash to those of the cgo package.
func cgoProps(ps []string) []string {
	var out []string
	for _, p := range ps {
		switch p {
		case "C01", "C02", "C04", "C05", "C06":
			out = append(out, "C03")
		case "C09", "C10", "C23":
			out = append(out, p, "C03")
		default:
			out = append(out, p)
		}
	}
	return out
}

// findMutable treats fields without a known role as arbitrary if anything but
// the constructor and Reset stores to them, and arrays always.
func (h *goHash) findMutable() {
	if len(h.extra) == 0 {
		return
	}
	at := map[int64]string{}
	for _, e := range h.extra {
		if _, ok := e.typ.Underlying().(*types.Array); ok {
			h.topExtra[e.name] = true
		}
		at[e.off] = e.name
	}
	for fn := range allFuncs(h.f) {
		if fn.Pkg != h.pkg || fn.Name() == "New" || fn.Name() == "init" || fn.Name() == "Reset" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || structOf(fa.X.Type()) != h.st {
					continue
				}
				n := at[h.f.fieldOff(h.st, fa.Field)]
				if n == "" || structOf(fa.Type()) != nil {
					continue
				}
				for _, r := range *fa.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.X == fa {
						continue
					}
					h.topExtra[n] = true
				}
			}
		}
	}
	if h.c {
		h.findMutableC(at)
	}
}

// findMutableC finds fields of the C context that C code reachable from the
// methods of the hash, other than Reset, may store to.
func (h *goHash) findMutableC(at map[int64]string) {
	m := h.f.cmod
	var todo []string
	for fn := range allFuncs(h.f) {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath+"/cgo" {
			continue
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Name() == "New" || root.Name() == "Reset" || root.Name() == "init" || strings.HasPrefix(root.Name(), "_C") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && strings.HasPrefix(f.Name(), "_Cfunc_") {
						todo = append(todo, strings.TrimPrefix(f.Name(), "_Cfunc_"))
					}
				}
			}
		}
	}
	// the context is the struct that holds the fields
	var base int64
	for i := 0; i < h.st.NumFields(); i++ {
		if structOf(h.st.Field(i).Type()) != nil {
			base = h.f.fieldOff(h.st, i)
		}
	}
	seen := map[string]bool{}
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		f := m.funcs[n]
		if f == nil || seen[n] {
			continue
		}
		seen[n] = true
		addr := map[int]string{}
		for _, b := range f.blk {
			for i := range b {
				in := &b[i]
				if in.op == "call" && in.fn.k == 'g' {
					todo = append(todo, in.fn.name)
				}
				if in.op == "getelementptr" && len(in.args) == 3 && in.t != nil && in.t.k == 's' && in.args[1].k == 'c' && in.args[2].k == 'c' {
					off := base + m.fieldOff(in.t, int(in.args[2].c.Int64()))
					if nm := at[off]; nm != "" && m.size(in.t) > 128 {
						addr[in.res] = nm
					}
				}
			}
		}
		for _, b := range f.blk {
			for i := range b {
				in := &b[i]
				if in.op == "load" || in.op == "getelementptr" {
					continue
				}
				for _, v := range in.args {
					if v.k == 'r' && addr[v.reg] != "" {
						h.topExtra[addr[v.reg]] = true
					}
				}
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Hypervisors mask extensions one by one, so nothing follows from another
// bit, except what the architecture's baseline guarantees.
var baseFeats = []string{"SSE", "SSE2"}

func featAxioms() B {
	ax := Tr
	for _, v := range baseFeats {
		ax = ax.and(featAtom(v))
	}
	return ax
}

// taskBlock compares the processing of one block with the reference.
func (h *goHash) taskBlock(rp *Report) {
	cfg := h.f.cfg.name
	ks, err := h.kernels()
	if err != nil {
		rp.und("kernels", err.Error(), "C18")
	}
	ax := featAxioms()
	for _, k := range ks {
		fs := k.u.features()
		for _, ft := range sortedKeys(fs) {
			rp.Counts["feature obligations"]++
			if k.when.and(ax).and(featAtom(ft).not()) != F {
				rp.add("feature-gate", fmt.Sprintf("%s is called on processors without %s, needed by %s", k.u.name, ft, fs[ft]), k.pos, "C18")
			}
		}
		rp.Counts["kernels"]++
	}
	rp.rule("the condition under which a kernel is called implies every instruction-set extension its instructions need")
	cs, err := h.classes()
	if err != nil {
		cs = []class{{"all", Tr}}
	}
	var portable *blockOut
	var others []struct {
		c class
		b blockOut
	}
	var sp *specBlock
	c := symC()
	for _, cl := range cs {
		cl := cl
		err := guard(func() {
			bs, a := h.oneBlock(c, cl.feat)
			rp.events(a, "processing one block ("+cfg+", "+cl.name+")")
			if a.counts["dvmask"] == 0 {
				giveUp("the bit-condition mask is not computed by ubc.CalculateDvMask")
			}
			if sp == nil {
				sp = h.blockSpec(c)
			}
			pos := where(h, "Write")
			if f := h.pkg.Func("block"); f != nil {
				pos = h.f.posStr(f.Pos()) + " (block)"
			}
			if strings.HasPrefix(cl.name, "portable") {
				if f := h.pkg.Func("blockGeneric"); f != nil {
					pos = h.f.posStr(f.Pos()) + " (blockGeneric)"
				}
			}
			for _, b := range bs {
				h.compareBlock(rp, cl, b, sp, c, pos)
			}
			if len(bs) == 1 {
				if cl.name == "portable" {
					portable = &bs[0]
				} else {
					others = append(others, struct {
						c class
						b blockOut
					}{cl, bs[0]})
				}
			}
		})
		if err != nil {
			rp.und("block", cfg+"/"+cl.name+": "+err.Error(), "C01", "C02", "C05", "C06", "C09", "C10")
		}
	}
	if portable != nil {
		for _, o := range others {
			diff := o.b.col != portable.col
			for j := range o.b.h {
				if o.b.h[j] != portable.h[j] {
					diff = true
				}
			}
			rp.Counts["back-end comparisons"]++
			if diff {
				rp.add("backends", fmt.Sprintf("%s and the portable code differ in the chaining value or verdict of a block", o.c.name), h.f.posStr(h.pkg.Func("block").Pos())+" (block)", "C02")
			}
		}
	}
	rp.rule("the abstract result of one block (chaining words and verdict) is the term of the reference: FIPS 180-4 compression, detection by the 32 vectors, triple compression of detected blocks")
}

func (h *goHash) blockSpec(c *Lin) *specBlock {
	var m [16]*Term
	for i := range m {
		m[i] = msgStream.word(c.addC(int64(4 * i)))
	}
	var hh [5]*Term
	for j := range hh {
		hh[j] = hAtom(j, c)
	}
	return specRun(hh, m, ufMaskBit)
}

// compareBlock attributes differences between a block's result and the reference.
func (h *goHash) compareBlock(rp *Report, cl class, b blockOut, sp *specBlock, c *Lin, pos string) {
	what := fmt.Sprintf("%s, %s", h.f.cfg.name, cl.name)
	hw := cl.name != "portable" && cl.name != "all"
	props := func(ps ...string) []string {
		if hw {
			ps = append(ps, "C02")
		}
		return ps
	}
	p := b.st.pred
	col0 := colAtom(c)
	rp.Counts["block obligations"] += 4
	// the verdict of this block alone, from a state without an earlier detection
	v, _, _ := bm.literal(col0)
	hit := bm.subst(b.col, func(x int) (B, bool) {
		if x == v {
			return F, true
		}
		return F, false
	})
	if p.and(col0).and(b.col.not()) != F {
		rp.add("verdict-sticky", what+": processing a block can clear an earlier verdict", pos, props("C10")...)
	}
	if miss := p.and(sp.detect).and(hit.not()); miss != F {
		var vs []string
		for i, d := range dvList {
			mb := ufMaskBit(sp.w, i)
			if p.and(mb).and(sp.eq[i]).and(hit.not()) != F {
				vs = append(vs, d.String())
			}
		}
		rp.add("detect-complete", fmt.Sprintf("%s: blocks built on %s are not always detected", what, strings.Join(vs, " ")), pos, props("C05")...)
	}
	if p.and(hit).and(sp.detect.not()) != F {
		rp.add("detect-sound", what+": a collision is reported without a twin block reaching the same chaining value", pos, props("C06")...)
	}
	rp.Counts["vectors"] += len(dvList)
	var bad1, bad3 []int
	for j := range b.h {
		rp.Counts["block obligations"] += 2
		n := p.and(hit.not()).and(col0.not())
		if under(b.h[j], n) != under(sp.h1[j], n) {
			bad1 = append(bad1, j)
		}
		y := p.and(hit)
		if y != F && under(b.h[j], y) != under(sp.h3[j], y) {
			bad3 = append(bad3, j)
		}
	}
	if bad1 != nil {
		rp.add("block-sha1", fmt.Sprintf("%s: words %v of the chaining value after an undetected block are not those of the SHA-1 compression function", what, bad1), pos, props("C01", "C06")...)
	}
	if bad3 != nil {
		rp.add("block-triple", fmt.Sprintf("%s: words %v of the chaining value after a detected block are not those of compressing it three times", what, bad3), pos, props("C09")...)
	}
	// a verdict set earlier must not change how blocks are processed
	y := p.and(col0)
	for j := range b.h {
		for _, q := range []B{hit, hit.not()} {
			w := sp.h1[j]
			if q == hit {
				w = sp.h3[j]
			}
			if y.and(q) != F && under(b.h[j], y.and(q)) != under(w, y.and(q)) {
				rp.add("block-after-hit", what+": blocks after a detection are processed differently", pos, props("C09")...)
				break
			}
		}
	}
}

// inClass runs fn in dispatch class number i.
func (h *goHash) inClass(rp *Report, i int, fn func(cl class)) {
	cs, err := h.classes()
	if err != nil {
		rp.und("kernels", err.Error(), allProps...)
		return
	}
	if i >= len(cs) {
		rp.Notes = append(rp.Notes, "no such dispatch class")
		return
	}
	h.feat = cs[i].feat
	rp.Notes = append(rp.Notes, "dispatch class "+cs[i].name)
	fn(cs[i])
}

func (h *goHash) tryW(rp *Report, name string, props []string, fn func() error) {
	if err := fn(); err != nil {
		if h.c {
			props = append(append([]string{}, props...), "C20")
		}
		rp.und(name, err.Error(), props...)
	}
}

// taskWrite analyses Write with an empty buffer, with some bytes buffered, or both.
func (h *goHash) taskWrite(rp *Report, i int, part string) {
	h.inClass(rp, i, func(cl class) {
		r := symR()
		switch part {
		case "empty":
			r = linC(0)
		case "some":
			r = newSym("r", big1, big.NewInt(63)).lin()
		}
		h.tryW(rp, "write", writeProps, func() error { return h.scWrite(rp, r, false) })
		if part == "empty" {
			return
		}
		h.tryW(rp, "write nil", writeProps, func() error { return h.scWrite(rp, symR(), true) })
	})
}

// taskSum analyses Sum and CollisionResistantSum, or the one-shot Sum, for a
// range lo-hi of buffered lengths or a list of them.
func (h *goHash) taskSum(rp *Report, i int, rs string, oneshot, fallback bool) {
	if fallback {
		rp.remap = cgoProps
	}
	h.inClass(rp, i, func(cl class) {
		for _, r := range parseRange(rs) {
			r := r
			if oneshot {
				pk := modPath
				if h.c || fallback {
					pk += "/cgo"
				}
				h.tryW(rp, fmt.Sprintf("one-shot r=%d", r), []string{"C23", "C01", "C10", "C15", "C17"}, func() error { return h.scOneShot(rp, r, pk) })
				continue
			}
			for _, m := range []string{"Sum", "CollisionResistantSum"} {
				m := m
				props := []string{"C01", "C10", "C11", "C15", "C17", "C22", "C23", "C26"}
				h.tryW(rp, fmt.Sprintf("%s r=%d", m, r), props, func() error { return h.scSum(rp, r, m, false) })
				if r == 0 || r == 56 {
					h.tryW(rp, fmt.Sprintf("%s nil r=%d", m, r), props, func() error { return h.scSum(rp, r, m, true) })
				}
			}
		}
	})
}

func parseRange(s string) []int64 {
	var out []int64
	for _, p := range strings.Split(s, ",") {
		lo, hi := p, p
		if k := strings.IndexByte(p, '-'); k > 0 {
			lo, hi = p[:k], p[k+1:]
		}
		for r := atoi(lo); r <= atoi(hi); r++ {
			out = append(out, int64(r))
		}
	}
	return out
}

func (h *goHash) taskMisc(rp *Report) {
	h.tryW(rp, "new", []string{"C01", "C12", "C16"}, func() error { return h.scNew(rp) })
	h.tryW(rp, "reset", []string{"C12", "C17"}, func() error { return h.scReset(rp) })
	h.tryW(rp, "sizes", []string{"C22", "C17", "C26"}, func() error { return h.scSizes(rp) })
	for _, fed := range []int64{0, 5} {
		for _, name := range []string{"Sum", "CollisionResistantSum", "MarshalBinary"} {
			h.tryW(rp, fmt.Sprintf("history New, Write(%d), %s", fed, name), []string{"C15"}, func() error { return h.scFresh(rp, fed, name) })
		}
	}
	if h.c {
		return
	}
	h.tryW(rp, "fallback", []string{"C03"}, func() error { return h.scFallback(rp) })
	mp := []string{"C11", "C13", "C14", "C15", "C17", "C26"}
	h.tryW(rp, "marshal", mp, func() error { return h.scMarshal(rp, symR()) })
	h.tryW(rp, "unmarshal", mp, func() error { return h.scUnmarshal(rp, false) })
	h.tryW(rp, "unmarshal nil", mp, func() error { return h.scUnmarshal(rp, true) })
}

package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The unavoidable-bit-condition mask. The function is analysed once for 80
// arbitrary words; each result bit is a decision diagram over parities of
// input bits, i.e. a disjoint union of affine subspaces of GF(2)^2560. The
// reference for vector i is one affine subspace (its bit conditions). Equality
// is decided by Gaussian elimination: every path must lie in the reference
// subspace and the sizes must add up.

type aff struct {
	rows map[int]map[int]bool // pivot -> the other variables and -1 for the constant
	bad  bool
}

func newAff() *aff { return &aff{rows: map[int]map[int]bool{}} }

func (s *aff) clone() *aff {
	n := &aff{rows: map[int]map[int]bool{}, bad: s.bad}
	for k, v := range s.rows {
		m := map[int]bool{}
		for x := range v {
			m[x] = true
		}
		n.rows[k] = m
	}
	return n
}

func (s *aff) reduce(e map[int]bool) map[int]bool {
	out := map[int]bool{}
	flip := func(v int) {
		if out[v] {
			delete(out, v)
		} else {
			out[v] = true
		}
	}
	for v := range e {
		if r, ok := s.rows[v]; ok {
			for x := range r {
				flip(x)
			}
		} else {
			flip(v)
		}
	}
	return out
}

// add adds the equation: the sum of the members of e (-1 is the constant 1) is 0.
func (s *aff) add(e map[int]bool) {
	e = s.reduce(e)
	if len(e) == 0 {
		return
	}
	p := -1
	for v := range e {
		if v > p {
			p = v
		}
	}
	if p < 0 {
		s.bad = true
		return
	}
	delete(e, p)
	s.rows[p] = e
	for q, r := range s.rows {
		if q != p && r[p] {
			delete(r, p)
			for x := range e {
				if r[x] {
					delete(r, x)
				} else {
					r[x] = true
				}
			}
		}
	}
}

// implies reports whether every equation of t follows from s.
func (s *aff) implies(t *aff) bool {
	for p, r := range t.rows {
		e := map[int]bool{p: true}
		for x := range r {
			e[x] = true
		}
		if len(s.reduce(e)) != 0 {
			return false
		}
	}
	return true
}

func (s *aff) String() string {
	var rows []string
	for p, r := range s.rows {
		vs := []int{p}
		k := 0
		for x := range r {
			if x < 0 {
				k = 1
			} else {
				vs = append(vs, x)
			}
		}
		sort.Ints(vs)
		var b []string
		for _, v := range vs {
			b = append(b, fmt.Sprintf("%d.%d", v/32, v%32))
		}
		rows = append(rows, fmt.Sprintf("%s=%d", strings.Join(b, "+"), k))
	}
	sort.Strings(rows)
	return strings.Join(rows, " ")
}

func parseAff(s string) *aff {
	a := newAff()
	for _, f := range strings.Fields(s) {
		e := map[int]bool{}
		l, r, _ := strings.Cut(f, "=")
		if r == "1" {
			e[-1] = true
		}
		for _, t := range strings.Split(l, "+") {
			w, b, _ := strings.Cut(t, ".")
			e[atoi(w)*32+atoi(b)] = true
		}
		a.add(e)
	}
	return a
}

var ubcRef []*aff

func ubcSpec(i int) *aff {
	if ubcRef == nil {
		for _, l := range strings.Split(strings.TrimSpace(ubcConditions), "\n") {
			_, r, _ := strings.Cut(l, ":")
			ubcRef = append(ubcRef, parseAff(r))
		}
	}
	return ubcRef[i]
}

// maskWords are the 80 arbitrary input words.
func maskWords() (ws []*Term, index map[*Term]int) {
	index = map[*Term]int{}
	for i := 0; i < 80; i++ {
		t := freshAtom(fmt.Sprintf("W[%d]", i), 32)
		ws = append(ws, t)
		index[t] = i
	}
	return
}

// paths lists the affine subspaces of a bit.
func affPaths(b B, index map[*Term]int, limit int) ([]*aff, error) {
	var out []*aff
	var err error
	var walk func(b B, s *aff)
	walk = func(b B, s *aff) {
		if b == F || err != nil || s.bad {
			return
		}
		if b == Tr {
			if len(out) >= limit {
				err = fmt.Errorf("more than %d paths", limit)
				return
			}
			out = append(out, s)
			return
		}
		n := bm.nodes[b]
		at := bm.atoms[n.v]
		if at.kind != "parity" {
			err = fmt.Errorf("depends on %s", at.name)
			return
		}
		e := map[int]bool{}
		for _, r := range at.bits {
			w, ok := index[r.t]
			if !ok {
				err = fmt.Errorf("depends on %s", at.name)
				return
			}
			e[w*32+r.i] = true
		}
		if n.lo != F {
			z := s.clone()
			z.add(e)
			walk(n.lo, z)
		}
		if n.hi != F {
			o := s.clone()
			f := map[int]bool{-1: true}
			for v := range e {
				f[v] = true
			}
			o.add(f)
			walk(n.hi, o)
		}
	}
	walk(b, newAff())
	return out, err
}

func bddSize(b B) int {
	seen := map[B]bool{}
	var w func(b B)
	w = func(b B) {
		if b <= 1 || seen[b] {
			return
		}
		seen[b] = true
		w(bm.nodes[b].lo)
		w(bm.nodes[b].hi)
	}
	w(b)
	return len(seen)
}

// checkMask compares a computed mask with the reference.
func checkMask(rp *Report, what, pos string, m *Term, index map[*Term]int, c bool) {
	dump := os.Getenv("UBC_DUMP") != ""
	var more, less []string
	if c {
		more, less = []string{"C07", "C03"}, []string{"C07", "C03"}
	} else {
		more, less = []string{"C07", "C06"}, []string{"C07", "C05"}
	}
	for i, d := range dvList {
		rp.Counts["mask bit comparisons"]++
		b := bitOf(m, i)
		ps, err := affPaths(b, index, 4096)
		if err != nil {
			rp.und("mask", fmt.Sprintf("%s, bit %d: %v", what, i, err), "C07")
			continue
		}
		if dump {
			fmt.Fprintf(os.Stderr, "%d: %v\n", i, ps[0])
			continue
		}
		ref := ubcSpec(i)
		total := new(big.Rat)
		for _, p := range ps {
			if !p.implies(ref) {
				rp.add("mask", fmt.Sprintf("%s sets bit %d, of %s, for some blocks that violate a condition of that vector (set when %s; conditions %s)", what, i, d, clip(p.String(), 300), clip(ref.String(), 300)), pos, more...)
				break
			}
			total.Add(total, new(big.Rat).SetFrac(big1, pow2(len(p.rows))))
		}
		// the part of the reference subspace that is covered
		cov := new(big.Rat)
		for _, p := range ps {
			x := p.clone()
			for q, r := range ref.rows {
				e := map[int]bool{q: true}
				for v := range r {
					e[v] = true
				}
				x.add(e)
			}
			if !x.bad {
				cov.Add(cov, new(big.Rat).SetFrac(big1, pow2(len(x.rows))))
			}
		}
		if cov.Cmp(new(big.Rat).SetFrac(big1, pow2(len(ref.rows)))) != 0 {
			rp.add("mask", fmt.Sprintf("%s does not set bit %d, of %s, for some blocks that satisfy all conditions of that vector", what, i, d), pos, less...)
		}
	}
	if len(m.bits) > 32 {
		rp.add("mask", what+" has more than 32 bits", pos, "C07")
	}
}

func maskRun(f *goFront) *An {
	maskMode = true
	a := f.newRun()
	a.trace = os.Getenv("TRACE") != ""
	return a
}

func maskSegs(ws []*Term) []Seg {
	var segs []Seg
	for i, w := range ws {
		segs = append(segs, cell(int64(4*i), 4, num(32, w)))
	}
	return segs
}

// maskOut collects the mask over all outcomes.
func maskOut(rp *Report, a *An, outs []Out, what string, get func(o Out) Value) *Term {
	var m *Term
	for _, o := range outs {
		if o.kind == oPanic {
			a.event(o.st, "panic", what+" may panic: "+o.msg)
			continue
		}
		n, ok := get(o).(Num)
		if !ok {
			giveUp("%s: result is not an integer", what)
		}
		if m == nil {
			m = n.term()
		} else {
			m = tIte(o.st.pred, n.term(), m)
		}
	}
	if m == nil {
		giveUp("%s never returns", what)
	}
	return m
}

func taskMask(rp *Report) {
	rp.rule("every bit of the mask, as a union of affine subspaces of GF(2)^2560, equals the subspace of its vector's bit conditions")
	for _, cfg := range []string{"noasm", "arm"} {
		f, err := loadGo(goConfigs[cfg])
		if err == nil {
			_, err = f.initBase()
		}
		if err != nil {
			rp.und("load", err.Error(), "C07", "C05", "C06")
			return
		}
		if err := guard(func() { goMask(rp, f) }); err != nil {
			rp.und("mask", cfg+": "+err.Error(), "C07", "C17")
		}
		if err := guard(func() {
			if p := f.pkg(modPath + "/cgo"); p != nil && p.Func("CalculateDvMask") != nil {
				goMaskFn(rp, f, p.Func("CalculateDvMask"), "cgo.CalculateDvMask without cgo", true)
			}
		}); err != nil {
			rp.und("mask", cfg+", cgo.CalculateDvMask: "+err.Error(), "C07")
		}
	}
}

func taskMaskC(rp *Report) {
	f, err := loadGo(goConfigs["cgo"])
	if err == nil {
		_, err = f.initBase()
	}
	if err == nil {
		f.cmod, err = loadC(f, repoDir+"/cgo")
	}
	if err != nil {
		rp.und("load", err.Error(), "C07", "C03", "C20")
		return
	}
	if err := guard(func() { cMask(rp, f) }); err != nil {
		rp.und("mask", err.Error(), "C07", "C20")
	}
}

func goMask(rp *Report, f *goFront) {
	p := f.pkg(modPath + "/ubc")
	if p == nil || p.Func("CalculateDvMask") == nil {
		rp.und("mask", "ubc.CalculateDvMask not found", "C07")
		return
	}
	fn := p.Func("CalculateDvMask")
	goMaskFn(rp, f, fn, "ubc.CalculateDvMask", false)
	// a missing input
	a := maskRun(f)
	outs := a.harness(newState(), fn, Ptr{})
	m := maskOut(rp, a, outs, "CalculateDvMask(nil)", func(o Out) Value { return o.val })
	if c, ok := m.isConst(); !ok || c != 0 {
		rp.add("mask", "CalculateDvMask(nil) is "+m.short()+", not 0", f.posStr(fn.Pos()), "C07")
	}
	rp.events(a, "CalculateDvMask(nil)")
}

func goMaskFn(rp *Report, f *goFront, fn *ssa.Function, what string, c bool) {
	a := maskRun(f)
	st := newState()
	ws, index := maskWords()
	id := a.newObj(st, &ObjMeta{name: "expanded message", kind: "input", ro: true}, linC(320), maskSegs(ws))
	a.roots = append(a.roots, id)
	var arg Value = Ptr{id, linC(0)}
	if _, ptr := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer); !ptr {
		arg = Agg{segs: maskSegs(ws), size: 320}
	}
	outs := a.harness(st, fn, arg)
	m := maskOut(rp, a, outs, what, func(o Out) Value { return o.val })
	checkMask(rp, what, f.posStr(fn.Pos()), m, index, c)
	rp.events(a, what)
}

func cMask(rp *Report, f *goFront) {
	p := f.pkg(modPath + "/cgo")
	if fn := p.Func("CalculateDvMask"); fn != nil {
		goMaskFn(rp, f, fn, "cgo.CalculateDvMask", true)
	} else {
		rp.und("mask", "cgo.CalculateDvMask not found", "C07")
	}
	a := maskRun(f)
	st := newState()
	ws, index := maskWords()
	in := a.newObj(st, &ObjMeta{name: "expanded message", kind: "input", ro: true}, linC(320), maskSegs(ws))
	out := a.newObj(st, &ObjMeta{name: "mask", kind: "local"}, linC(4), []Seg{{linC(0), linC(4), cTop{"old mask"}}})
	a.roots = append(a.roots, in, out)
	if f.cmod.funcs["ubc_check"] == nil {
		rp.und("mask", "C function ubc_check not found", "C07")
		return
	}
	outs := a.callC(st, "ubc_check", []Value{Ptr{in, linC(0)}, Ptr{out, linC(0)}})
	m := maskOut(rp, a, outs, "ubc_check", func(o Out) Value {
		return a.load(o.st, Ptr{out, linC(0)}, vkind{k: 'n', w: 32, size: 4})
	})
	checkMask(rp, "C function ubc_check", "cgo/ubc_check.c (ubc_check)", m, index, true)
	rp.events(a, "ubc_check")
}

// (condition sets are in ubcspec.go)

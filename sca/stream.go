package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Finding is a property violation located in the source.
type Finding struct {
	Props []string `json:"props"`
	Rule  string   `json:"rule"`
	Msg   string   `json:"msg"`
	Pos   string   `json:"pos"`
	Task  string   `json:"task,omitempty"`
}

// Report is the result of one analysis task.
type Report struct {
	Task      string         `json:"task"`
	Findings  []Finding      `json:"findings"`
	Undecided []Finding      `json:"undecided"`
	Counts    map[string]int `json:"counts"`
	Funcs     map[string]int `json:"funcs"`
	Rules     []string       `json:"rules"`
	Notes     []string       `json:"notes"`
	seen      map[string]bool
	remap     func([]string) []string
}

func newReport(task string) *Report {
	return &Report{Task: task, Counts: map[string]int{}, Funcs: map[string]int{}, seen: map[string]bool{}}
}

func (r *Report) add(rule, msg, pos string, props ...string) {
	k := "f" + rule + msg + pos
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	if r.remap != nil {
		props = r.remap(props)
	}
	r.Findings = append(r.Findings, Finding{Props: props, Rule: rule, Msg: msg, Pos: pos})
}

func (r *Report) und(rule, msg string, props ...string) {
	k := "u" + rule + msg
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	if r.remap != nil {
		props = r.remap(props)
	}
	r.Undecided = append(r.Undecided, Finding{Props: props, Rule: rule, Msg: msg})
}

func (r *Report) rule(s string) {
	for _, x := range r.Rules {
		if x == s {
			return
		}
	}
	r.Rules = append(r.Rules, s)
}

// absorb adds the statistics of an analysis run.
func (r *Report) absorb(a *An) {
	for k, v := range a.counts {
		r.Counts[k] += v
	}
	r.Counts["steps"] += a.steps
	for k, v := range a.calls {
		r.Funcs[strings.ReplaceAll(k, modPath, "sha1cd")] += v
	}
}

// events reports the safety violations of a run.
func (r *Report) events(a *An, what string) {
	r.absorb(a)
	for _, e := range a.events {
		var props []string
		switch e.kind {
		case "rostore":
			props = []string{"C15"}
		case "gstore":
			props = []string{"C16"}
		case "grow":
			props = []string{"C24"}
		case "selfstore":
			props = []string{"C26"}
		case "oob", "nil", "panic", "nonterm":
			props = []string{"C17"}
		case "align", "abi", "undef", "undefbranch":
			props = []string{"C19"}
		default:
			props = []string{"C17"}
		}
		if e.loc.c != nil && e.kind != "grow" && e.kind != "selfstore" {
			if _, ok := e.loc.c.(*cFunc); ok {
				switch e.kind {
				case "rostore", "gstore":
					props = append(props, "C20")
				default:
					props = []string{"C20"}
				}
			}
			if _, ok := e.loc.c.(*asmUnit); ok {
				switch e.kind {
				case "oob", "nil", "rostore", "nonterm":
					props = append(props, "C19")
				}
			}
		}
		r.add(e.kind, fmt.Sprintf("%s: %s (via %s)", what, e.msg, e.via), e.pos, props...)
	}
}

// ---- reference for one block: the implementation's own behaviour

type blockRef struct {
	ok  bool
	err string
	h   [5]*Term
	col B
}

var refMemo = map[string]*blockRef{}

// ref analyses one block at position c starting from the chaining value at c.
func (h *goHash) ref(c *Lin) *blockRef {
	key := fmt.Sprintf("%d/%s", h.feat, c.key())
	if r, ok := refMemo[key]; ok {
		return r
	}
	var h0 [5]*Term
	for j := range h0 {
		h0[j] = hAtom(j, c)
	}
	r := h.refOf(c, h0, colAtom(c), []Seg{{linC(0), linC(64), cSrc{msgStream, c}}})
	refMemo[key] = r
	return r
}

// refOf runs Write of one given block from a given chaining value.
func (h *goHash) refOf(c *Lin, h0 [5]*Term, col B, content []Seg) *blockRef {
	sp, sq := curPos, curPred
	defer func() { curPos, curPred = sp, sq }()
	r := &blockRef{}
	err := guard(func() {
		bs, _ := h.block(c, h.feat, h0, col, content)
		// what Write refuses is reported where Write is analysed
		k := 0
		for _, b := range bs {
			if !b.refused {
				bs[k] = b
				k++
			}
		}
		bs = bs[:k]
		if len(bs) != 1 {
			giveUp("processing of one block has %d outcomes", len(bs))
		}
		r.h, r.col, r.ok = bs[0].h, bs[0].col, true
	})
	if err != nil {
		r.err = err.Error()
	}
	return r
}

// foldTo replaces the result of processing the block at c by the chaining
// value at c+64 throughout a state.
func (h *goHash) folder() func(a *An, st *State) {
	return func(a *An, st *State) {
		fb := func(b B) B {
			if b <= 1 {
				return b
			}
			seen := map[int]bool{}
			var ranges []int
			for _, v := range bm.support(b) {
				for _, p := range bm.atoms[v].hpos {
					seen[p] = true
				}
				if at := &bm.atoms[v]; at.kind == "col" && at.from != nil {
					ranges = append(ranges, v)
				}
			}
			for p := range seen {
				c := posLins[p]
				r := h.ref(c)
				if !r.ok {
					continue
				}
				end := c.addC(64)
				if r.col == b {
					return colAtom(end)
				}
				v, _, ok := bm.literal(colAtom(c))
				if !ok {
					continue
				}
				// detections since some block
				d := bm.subst(r.col, func(x int) (B, bool) { return F, x == v })
				if d <= 1 {
					continue
				}
				rest := bm.subst(b, func(x int) (B, bool) {
					at := &bm.atoms[x]
					if at.kind == "col" {
						return F, at.from != nil && at.pos.eq(c)
					}
					for _, q := range at.hpos {
						if q == p {
							return F, true
						}
					}
					return F, false
				})
				if rest == b {
					continue
				}
				if b == rest.or(d) {
					return rest.or(colRange(c, end))
				}
				for _, v := range ranges {
					if at := &bm.atoms[v]; at.pos.eq(c) && b == rest.or(bm.lit(v)).or(d) {
						return rest.or(colRange(at.from, end))
					}
				}
			}
			for _, v := range ranges {
				if at := &bm.atoms[v]; b == bm.lit(v).or(colAtom(at.from)) {
					return colAtom(at.pos)
				}
			}
			return b
		}
		memo := map[*Term]*Term{}
		ft := func(t *Term) *Term {
			if t == nil || t.kind == kAtom || len(t.hpos) == 0 || t.kind == kPoly {
				return t
			}
			if r, ok := memo[t]; ok {
				return r
			}
			res := t
		out:
			for _, p := range t.hpos {
				r := h.ref(posLins[p])
				if !r.ok {
					a.noteWiden("no reference for " + posLins[p].String() + ": " + r.err)
					continue
				}
				if t.kind == kBits && len(t.bits) == 1 {
					if b := isZero(t).not(); t == bool2term(b) {
						if n := fb(b); n != b {
							res = bool2term(n)
							break out
						}
					}
				}
				for j := 0; j < 5; j++ {
					if r.h[j] == t || under(r.h[j], st.pred) == t {
						res = hAtom(j, posLins[p].addC(64))
						break out
					}
				}
			}
			memo[t] = res
			return res
		}
		var fv func(v Value) Value
		var fs func(ss []Seg) ([]Seg, bool)
		fv = func(v Value) Value {
			switch x := v.(type) {
			case Num:
				if x.lin == nil {
					if t := ft(x.t); t != x.t {
						return num(x.w, t)
					}
				}
			case Bool:
				if b := fb(x.b); b != x.b {
					return Bool{b}
				}
			case Agg:
				if s, ch := fs(x.segs); ch {
					return Agg{x.size, s}
				}
			}
			return v
		}
		fs = func(ss []Seg) ([]Seg, bool) {
			var out []Seg
			for i, s := range ss {
				c, ok := s.c.(cCell)
				if !ok {
					continue
				}
				switch c.v.(type) {
				case Num, Bool, Agg:
				default:
					continue
				}
				n := fv(c.v)
				if !a.valEq(nil, n, c.v) {
					if out == nil {
						out = append([]Seg{}, ss...)
					}
					out[i].c = cCell{n}
				}
			}
			if out == nil {
				return ss, false
			}
			return out, true
		}
		for i, v := range st.fr.regs {
			if v != nil {
				st.fr.regs[i] = fv(v)
			}
		}
		for id, o := range st.mem {
			if o.meta.kind == "const" {
				continue
			}
			if ss, ch := fs(o.segs); ch {
				st.mem[id] = &Obj{o.meta, o.size, ss}
			}
		}
	}
}

// ---- abstract hash states

// rep is the abstract state of a hash to which T bytes of the message have
// been written.
type rep struct {
	q, r *Lin // T = 64q + r
}

func (p rep) pos() *Lin   { return p.q.mulC(64) }
func (p rep) total() *Lin { return p.q.mulC(64).add(p.r) }

// symQ is a number of complete blocks. The length counter of the C code is
// analysed without wrapping around (fewer than 2^64 bytes in total).
func (h *goHash) symQ() *Lin {
	if h.c {
		return newSym("Q", big0, new(big.Int).Sub(pow2(57), big1)).lin()
	}
	return newSym("Q", big0, new(big.Int).Sub(pow2(58), big1)).lin()
}
func symR() *Lin { return newSym("r", big0, big.NewInt(63)).lin() }

func (h *goHash) buildRep(a *An, st *State, p rep) ObjID {
	c := p.pos()
	var hs [5]*Term
	for j := range hs {
		hs[j] = hAtom(j, c)
	}
	x := []Seg{{linC(0), p.r, cSrc{msgStream, c}}, {p.r, linC(64), cTop{"stale buffer contents"}}}
	if v, ok := p.r.int(); ok && v == 0 {
		x = x[1:]
	}
	return h.build(a, st, h.parts(hs, x, p.r, p.total(), colAtom(c)))
}

// buildJunk is a hash in an arbitrary reachable state unrelated to the message.
func (h *goHash) buildJunk(a *An, st *State) (ObjID, rep) {
	q, r := h.symQ(), symR()
	var hs [5]*Term
	for j := range hs {
		hs[j] = freshAtom("old h", 32)
	}
	p := rep{q, r}
	x := []Seg{{linC(0), linC(64), cSrc{&Stream{name: "old buffer"}, linC(0)}}}
	return h.build(a, st, h.parts(hs, x, r, p.total(), freshBool("old verdict"))), p
}

func pred(st *State, b B) B {
	if st.pred.implies(b) {
		return Tr
	}
	if st.pred.and(b) == F {
		return F
	}
	return b
}

// isRep reports how a hash object differs from the abstract state after T bytes.
// The chaining position is found from the state itself.
func (h *goHash) isRep(a *An, st *State, id ObjID, T *Lin) (diffs []string) {
	bad := func(f string, args ...any) { diffs = append(diffs, fmt.Sprintf(f, args...)) }
	var pos *Lin
	for j := 0; j < 5; j++ {
		n, ok := h.hWord(a, st, id, j).(Num)
		if !ok {
			bad("h: word %d of the chaining value is not determined", j)
			continue
		}
		t := n.term()
		if t.hj != j || t.kind != kAtom {
			determined(F, t)
			bad("h: word %d of the chaining value is %s instead of the value after the complete blocks", j, t.short())
			continue
		}
		if pos == nil {
			pos = t.off
		} else if !linEq(st.ctx, pos, t.off) {
			bad("h: words of the chaining value belong to different positions (%s and %s)", pos, t.off)
		}
	}
	if pos == nil {
		return
	}
	if m, ok := pos.modC(64); !ok || m != 0 {
		bad("h: chaining value at position %s", pos)
	}
	nx := h.nxOf(a, st, id)
	if nx == nil {
		nx = T.sub(pos)
	}
	if !st.ctx.eq0(pos.add(nx).sub(T)) {
		bad("nx: %s bytes processed and %s buffered, %s written", pos, nx, T)
	}
	if !st.ctx.ge0(nx) || !st.ctx.ge0(linC(63).sub(nx)) {
		bad("nx: buffered length %s is not in 0..63", nx)
		return
	}
	ln, ok := h.field(a, st, id, "len").(Num)
	if !ok {
		bad("len: not determined")
	} else {
		l, ok := a.linOf(st, ln, false)
		want := fit(st.ctx, T, 64, false)
		if !ok {
			bad("len: recorded length is %s", ln)
		} else if !st.ctx.eq0(l.sub(want)) {
			bad("len: recorded length is %s, %s bytes written", l, T)
		}
	}
	if !st.ctx.eq0(nx) {
		fr := h.fields["x"]
		segs := coalesce(st.ctx, a.readSegs(st.ctx, a.obj(st, id), linC(fr.off), linC(fr.off).add(nx)))
		if !h.srcIs(a, st, segs, nx, msgStream, pos) {
			bad("x: buffer holds %s instead of the last %s bytes of the message", segStr(segs), nx)
		}
	}
	cb, ok := h.colOf(a, st, id)
	if !ok {
		bad("col: not determined")
	} else if c := colAtom(pos); cb != c && cb.xor(c).and(st.pred) != F {
		determined(cb)
		bad("col: the verdict is not that of the blocks processed")
	}
	for _, e := range h.extra {
		if h.topExtra[e.name] {
			continue
		}
		got := a.readSegs(st.ctx, a.obj(st, id), linC(e.off), linC(e.off+e.k.size))
		want := a.readSegs(st.ctx, &Obj{segs: h.news.segs}, linC(e.off), linC(e.off+e.k.size))
		if !a.segsEq(st.ctx, got, want) {
			h.extraChanged[e.name] = true
		}
	}
	return
}

// blame says which guarantees about blocks a deviation of the chaining value
// and the verdict breaks, when it is due to a single block. It compares with
// the processing of a complete block, separately for blocks that are detected
// and for those that are not.
func (h *goHash) blame(a *An, st *State, id ObjID) (props []string, ok bool) {
	at := map[int]bool{}
	var ts [5]*Term
	for j := range ts {
		n, isNum := h.hWord(a, st, id, j).(Num)
		if !isNum {
			return nil, false
		}
		ts[j] = n.term()
		if ts[j].kind != kAtom {
			for _, p := range ts[j].hpos {
				at[p] = true
			}
		}
	}
	col, known := h.colOf(a, st, id)
	if !known {
		return nil, false
	}
	for _, v := range bm.support(col) {
		for _, p := range bm.atoms[v].hpos {
			at[p] = true
		}
	}
	if len(at) != 1 {
		return nil, false
	}
	for p := range at {
		c := posLins[p]
		r := h.ref(c)
		if !r.ok {
			return nil, false
		}
		col0 := colAtom(c)
		for j, t := range ts {
			if t == hAtom(j, c) { // the block has not been processed
				return nil, false
			}
			if t == hAtom(j, c.addC(64)) {
				ts[j] = r.h[j]
			}
		}
		return judge(st.pred, col0, ts, col, r.h, r.col), true
	}
	return nil, false
}

// judge compares chaining words and verdict with those expected.
func judge(pred, col0 B, h [5]*Term, col B, wantH [5]*Term, wantCol B) (props []string) {
	v, _, _ := bm.literal(col0)
	det := wantCol
	if col0 > 1 {
		det = bm.subst(wantCol, func(x int) (B, bool) { return F, x == v })
	}
	add := func(p string) { props = append(props, p) }
	y, n := pred.and(det), pred.and(det.not()).and(col0.not())
	badY, badN := false, false
	for j := range h {
		badY = badY || y != F && under(h[j], y) != under(wantH[j], y)
		badN = badN || n != F && under(h[j], n) != under(wantH[j], n)
	}
	if badY {
		add("C09")
	}
	if badN {
		add("C01")
		add("C06")
	}
	if y.and(col.not()).and(col0.not()) != F {
		add("C05")
	}
	if n.and(col) != F && !badN {
		add("C06")
	}
	return
}

// place is where a state holds a value: a register or a memory cell.
type place struct {
	reg int
	obj ObjID
	i   int
}

func (p place) get(st *State) Value {
	if p.obj == 0 {
		return st.fr.regs[p.reg]
	}
	if o := st.mem[p.obj]; o != nil && p.i < len(o.segs) {
		if c, ok := o.segs[p.i].c.(cCell); ok {
			return c.v
		}
	}
	return nil
}

func (p place) set(st *State, v Value) {
	if p.obj == 0 {
		st.fr.regs[p.reg] = v
		return
	}
	o := st.mem[p.obj]
	ss := append([]Seg{}, o.segs...)
	ss[p.i].c = cCell{v}
	st.mem[p.obj] = &Obj{o.meta, o.size, ss}
}

func places(st *State, f func(p place, v Value)) {
	for i, v := range st.fr.regs {
		f(place{reg: i}, v)
	}
	var ids []int
	for id := range st.mem {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		for i, s := range st.mem[ObjID(id)].segs {
			if c, ok := s.c.(cCell); ok {
				f(place{obj: ObjID(id), i: i}, c.v)
			}
		}
	}
}

// advances reports whether an iteration moved on in the data: some length,
// offset or counter changed by a number of blocks.
func advances(head, back *State) (yes bool) {
	step := func(x, y *Lin) {
		if x == nil || y == nil {
			return
		}
		if d, ok := y.sub(x).int(); ok && d != 0 && (d%64 == 0 || !x.isConst()) {
			yes = true
		}
	}
	cmp := func(v, w Value) {
		switch x := v.(type) {
		case Num:
			if y, ok := w.(Num); ok {
				step(x.lin, y.lin)
			}
		case SliceV:
			if y, ok := w.(SliceV); ok {
				step(x.len, y.len)
			}
		case Ptr:
			if y, ok := w.(Ptr); ok && x.obj == y.obj {
				step(x.off, y.off)
			}
		}
	}
	for i, v := range head.fr.regs {
		if v != nil && i < len(back.fr.regs) {
			cmp(v, back.fr.regs[i])
		}
	}
	for id, o := range head.mem {
		p := back.mem[id]
		if yes || p == nil || p == o || len(p.segs) != len(o.segs) {
			continue
		}
		for i, g := range o.segs {
			c, ok := g.c.(cCell)
			d, ok1 := p.segs[i].c.(cCell)
			if ok && ok1 {
				cmp(c.v, d.v)
			}
		}
	}
	return
}

// rebaser looks at the ways around a loop over the data. A state at the head
// holds the chaining value at c; after an iteration it holds the one at c+64.
// If a way around the loop gives something else from the same block, while
// states at this head are otherwise chaining values, the deviation is
// reported and the analysis goes on as if the block had been processed.
func (h *goHash) rebaser(report func(props []string, ok bool, msg, pos string)) func(a *An, key, pos string, head *State, backs []*State) {
	good := map[string]bool{}
	n := 0
	return func(a *An, key, pos string, head *State, backs []*State) {
		any := false
		for _, b := range backs {
			any = any || b.feasible() && advances(head, b)
		}
		if !any {
			return
		}
		words := map[string]*[5][]place{}
		at := map[string]*Lin{}
		cols := map[string][]place{}
		places(head, func(p place, v Value) {
			if x, ok := v.(Num); ok && x.t != nil && x.t.kind == kAtom && x.t.off != nil && x.w == 32 && x.t == hAtom(x.t.hj, x.t.off) {
				k := x.t.off.key()
				if words[k] == nil {
					words[k] = &[5][]place{}
					at[k] = x.t.off
				}
				words[k][x.t.hj] = append(words[k][x.t.hj], p)
			}
		})
		for _, k := range sortedKeys(words) {
			c, w := at[k], words[k]
			all := true
			for j := range w {
				all = all && len(w[j]) > 0
			}
			if !all {
				continue
			}
			col0 := colAtom(c)
			if col0 > 1 {
				places(head, func(p place, v Value) {
					switch x := v.(type) {
					case Bool:
						if x.b == col0 {
							cols[k] = append(cols[k], p)
						}
					case Num:
						if x.t != nil && x.t == bool2term(col0) {
							cols[k] = append(cols[k], p)
						}
					}
				})
			}
			id := posID(c)
			type dev struct {
				st  *State
				ts  [5]*Term
				col B
			}
			var devs []dev
			for _, b := range backs {
				if !b.feasible() {
					continue
				}
				d := dev{st: b, col: col0}
				moved, single := true, true
				for j := range w {
					for _, p := range w[j] {
						if x, ok := p.get(b).(Num); ok && x.t != nil && x.t != hAtom(j, c) {
							d.ts[j] = x.t
							break
						}
					}
					if d.ts[j] == nil {
						moved = false
						break
					}
					for _, q := range d.ts[j].hpos {
						single = single && (q == id || d.ts[j] == hAtom(j, c.addC(64)))
					}
				}
				if !moved || !single {
					continue
				}
				colSeen := false
				for _, p := range cols[k] {
					switch x := p.get(b).(type) {
					case Bool:
						if x.b != col0 {
							d.col, colSeen = x.b, true
						}
					case Num:
						if x.t != nil && x.t != bool2term(col0) {
							d.col, colSeen = isZero(x.t).not(), true
						}
					}
				}
				r := h.ref(c)
				if !r.ok {
					return
				}
				same := func(pr B) bool {
					for j, t := range d.ts {
						if t != hAtom(j, c.addC(64)) && t != r.h[j] && under(t, pr) != under(r.h[j], pr) {
							return false
						}
					}
					return !colSeen || d.col == colAtom(c.addC(64)) || d.col.xor(r.col).and(pr) == F
				}
				if same(b.pred) {
					good[key] = true
					continue
				}
				for _, t := range d.ts {
					if t.kind == kCases {
						for _, x := range t.cases {
							if g := b.pred.and(x.g); g != F && same(g) {
								good[key] = true
							}
						}
					}
				}
				if len(cols[k]) == 0 {
					d.col = r.col
				}
				devs = append(devs, d)
			}
			if !good[key] {
				continue
			}
			for _, d := range devs {
				r := h.ref(c)
				if a.quiet == 0 {
					ts := d.ts
					for j := range ts {
						if ts[j] == hAtom(j, c.addC(64)) {
							ts[j] = r.h[j]
						}
					}
					props := judge(d.st.pred, col0, ts, d.col, r.h, r.col)
					report(props, len(props) > 0, fmt.Sprintf("in the loop over the data, where %v, the block at %s is not processed as a single block is", d.st.ctx.cons, c), pos)
					if n++; n > 8 {
						giveUp("more than 8 deviating iterations")
					}
				}
				for j := range w {
					for _, p := range w[j] {
						if x, ok := p.get(d.st).(Num); ok && x.t != nil && x.t != hAtom(j, c) {
							p.set(d.st, num(32, hAtom(j, c.addC(64))))
						}
					}
				}
				for _, p := range cols[k] {
					switch x := p.get(d.st).(type) {
					case Bool:
						if x.b != col0 {
							p.set(d.st, Bool{colAtom(c.addC(64))})
						}
					case Num:
						if x.t != nil && x.t != bool2term(col0) {
							p.set(d.st, num(x.w, bool2term(colAtom(c.addC(64)))))
						}
					}
				}
			}
		}
	}
}

// srcIs reports whether segs are bytes [off, off+n) of stream s.
func (h *goHash) srcIs(a *An, st *State, segs []Seg, n *Lin, s *Stream, off *Lin) bool {
	at := linC(0)
	for _, g := range segs {
		if !linEq(st.ctx, g.lo, at) {
			return false
		}
		switch c := g.c.(type) {
		case cSrc:
			if c.s != s || !linEq(st.ctx, c.off, off.add(g.lo)) {
				return false
			}
		case cCell:
			k, ok := g.hi.sub(g.lo).int()
			if !ok || k > 64 {
				return false
			}
			for i := int64(0); i < k; i++ {
				if a.byteOf(st.ctx, []Seg{{linC(0), linC(k), c}}, i) != s.byteAt(off.add(g.lo).addC(i)) {
					return false
				}
			}
		default:
			return false
		}
		at = g.hi
	}
	return linEq(st.ctx, at, n)
}

// sameHash reports differences of the logical state of a hash between two states.
func (h *goHash) sameHash(a *An, st0 *State, st *State, id ObjID, r *Lin) (diffs []string) {
	bad := func(f string, args ...any) { diffs = append(diffs, fmt.Sprintf(f, args...)) }
	for j := 0; j < 5; j++ {
		if !a.valEq(st.ctx, h.hWord(a, st0, id, j), h.hWord(a, st, id, j)) {
			bad("h: word %d of the chaining value changed", j)
		}
	}
	for _, f := range []string{"nx", "len", "col"} {
		if _, ok := h.fields[f]; !ok {
			continue
		}
		if f == "col" {
			u, ok1 := h.colOf(a, st0, id)
			v, ok2 := h.colOf(a, st, id)
			if ok1 && ok2 && u.xor(v).and(st.pred) == F {
				continue
			}
		}
		u, v := h.field(a, st0, id, f), h.field(a, st, id, f)
		if !a.valEq(st.ctx, u, v) {
			bad("%s: changed from %s to %s", f, vstr(u), vstr(v))
		}
	}
	if !st.ctx.eq0(r) {
		fr := h.fields["x"]
		u := coalesce(st.ctx, a.readSegs(st.ctx, a.obj(st0, id), linC(fr.off), linC(fr.off).add(r)))
		v := coalesce(st.ctx, a.readSegs(st.ctx, a.obj(st, id), linC(fr.off), linC(fr.off).add(r)))
		if !a.segsEq(st.ctx, u, v) {
			ok := false
			if len(u) == 1 {
				if c, isSrc := u[0].c.(cSrc); isSrc {
					ok = h.srcIs(a, st, v, r, c.s, c.off)
				}
			}
			if !ok {
				bad("x: buffered bytes changed")
			}
		}
	}
	for _, e := range h.extra {
		if h.topExtra[e.name] {
			continue
		}
		u := a.readSegs(st.ctx, a.obj(st0, id), linC(e.off), linC(e.off+e.k.size))
		v := a.readSegs(st.ctx, a.obj(st, id), linC(e.off), linC(e.off+e.k.size))
		if !a.segsEq(st.ctx, u, v) {
			h.extraChanged[e.name] = true
		}
	}
	return
}

// start is the initial state of a scenario: the processor features of the
// dispatch class under analysis.
func (h *goHash) start() *State {
	st := newState()
	st.pred = h.feat
	return st
}

// kernel is an assembly function reached from the Go code.
type kernel struct {
	u    *asmUnit
	when B // processor features under which it is called
	pos  string
}

// kernels finds the assembly functions that processing a block calls.
func (h *goHash) kernels() (ks []*kernel, err error) {
	err = guard(func() {
		a := h.f.newRun()
		maskHooks(a)
		byName := map[string]*kernel{}
		a.asmFeat = func(a *An, st *State, u *asmUnit) {
			k := byName[u.name]
			if k == nil {
				k = &kernel{u: u, when: F, pos: curPos.String()}
				byName[u.name] = k
				ks = append(ks, k)
			}
			k.when = k.when.or(featOnly(st.pred))
		}
		st := newState()
		hid := h.buildRep(a, st, rep{h.symQ(), linC(0)})
		in := h.inObj(a, st, "caller's data", linC(64), msgStream, symC())
		a.harness(st, h.method("Write"), Ptr{hid, linC(0)}, SliceV{Ptr{in, linC(0)}, linC(64), linC(64)})
	})
	return
}

// featOnly abstracts a predicate to the processor features it depends on.
func featOnly(p B) B {
	for {
		done := true
		for _, v := range bm.support(p) {
			if bm.atoms[v].kind != "feat" {
				l := bm.lit(v)
				p = bm.restrict(p, l).or(bm.restrict(p, l.not()))
				done = false
				break
			}
		}
		if done {
			return p
		}
	}
}

type class struct {
	name string
	feat B
}

// classes partitions the processors by the kernels used on them.
func (h *goHash) classes() ([]class, error) {
	ks, err := h.kernels()
	if err != nil {
		return nil, err
	}
	cs := []class{{"", Tr}}
	for _, k := range ks {
		var n []class
		for _, c := range cs {
			if y := c.feat.and(k.when); y != F {
				n = append(n, class{strings.TrimPrefix(c.name+"+"+k.u.name, "+"), y})
			}
			if y := c.feat.and(k.when.not()); y != F {
				n = append(n, class{c.name, y})
			}
		}
		cs = n
	}
	for i := range cs {
		if cs[i].name == "" {
			cs[i].name = "portable"
		}
	}
	return cs, nil
}

// run prepares an analysis with folding and the mask hook.
func (h *goHash) newRun() *An {
	a := h.f.newRun()
	a.trace = os.Getenv("TRACE") != ""
	maskHooks(a)
	a.fold = h.folder()
	a.visited = visitAll
	return a
}

func (h *goHash) inObj(a *An, st *State, name string, n *Lin, s *Stream, off *Lin) ObjID {
	id := a.newObj(st, &ObjMeta{name: name, kind: "input", ro: true}, n, []Seg{{linC(0), n, cSrc{s, off}}})
	a.roots = append(a.roots, id)
	return id
}

func where(h *goHash, name string) string {
	if m := h.method(name); m != nil {
		return fmt.Sprintf("%s (%s)", h.f.posStr(m.Pos()), strings.ReplaceAll(m.RelString(nil), modPath, "sha1cd"))
	}
	return name
}

func isNilErr(v Value) (isNil, known bool) {
	i, ok := v.(Iface)
	if !ok {
		return false, false
	}
	return i.typ == nil && i.op == "", true
}

// retains reports whether object id is reachable from the hash or a package variable.
func (h *goHash) retains(a *An, st *State, hid, id ObjID) bool {
	ids := []ObjID{hid}
	for g := range st.mem {
		if o := st.mem[g]; o.meta.global {
			ids = append(ids, g)
		}
	}
	return a.reach(st, nil, ids)[id]
}

// cases runs fn on st, partitioning the state where fn needs it.
func (rp *Report) cases(a *An, st *State, fn func(st *State)) {
	work := []*State{st}
	for n := 0; len(work) > 0; n++ {
		if n > 400 {
			giveUp("too many cases in the final state")
		}
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if !s.feasible() {
			continue
		}
		mark := len(rp.Findings)
		var split *needSplit
		func() {
			defer func() {
				if e := recover(); e != nil {
					if x, ok := e.(needSplit); ok {
						split = &x
						return
					}
					panic(e)
				}
			}()
			curPred = s.pred
			fn(s.clone())
		}()
		if split == nil {
			continue
		}
		for _, f := range rp.Findings[mark:] {
			delete(rp.seen, "f"+f.Rule+f.Msg+f.Pos)
		}
		rp.Findings = rp.Findings[:mark]
		s1, s2 := s.clone(), s.clone()
		if split.e != nil {
			s1.ctx = s1.ctx.withGE(split.e)
			s2.ctx = s2.ctx.withGE(split.e.neg().addC(-1))
			if s1.feasible() {
				a.pin(s1, split.e)
			}
			if s2.feasible() {
				a.pin(s2, split.e)
			}
		} else {
			s1.pred = s1.pred.and(split.g)
			s2.pred = s2.pred.and(split.g.not())
		}
		work = append(work, s1, s2)
	}
}

// nonNeg decides e >= 0, partitioning the state if necessary.
func nonNeg(st *State, e *Lin) bool {
	switch st.ctx.decide(e) {
	case 0:
		panic(needSplit{e: e})
	case 1:
		return true
	}
	return false
}

// each applies fn to the returning outcomes and reports panics.
func (rp *Report) each(a *An, outs []Out, what string, fn func(o Out)) {
	for _, o := range outs {
		if o.kind == oPanic {
			p := curPos
			if o.pos.c != nil {
				curPos = o.pos
			}
			a.event(o.st, "panic", what+" may panic: "+o.msg)
			curPos = p
			continue
		}
		rp.cases(a, o.st, func(st *State) {
			c := o
			c.st = st
			if len(st.fr.regs) == 1 && st.fr.regs[0] != nil {
				c.val = st.fr.regs[0]
			}
			fn(c)
		})
	}
}

// constOf is the value of l if the constraints determine it.
func constOf(ctx *Ctx, l *Lin) (int64, bool) {
	for _, t := range l.ts {
		lo, hi := syms[t.s].lo, syms[t.s].hi
		for _, v := range []*big.Int{lo, hi} {
			if v != nil && ctx.eq0(t.s.lin().sub(linBig(v))) {
				l = l.subst(t.s, linBig(v))
				break
			}
		}
	}
	return l.int()
}

// ---- scenarios

func (h *goHash) retry(rep *Report, name string, props []string, sc func(name string) error) {
	if err := sc(name); err != nil {
		rep.und(name, err.Error(), props...)
	}
}

// maxInt bounds the length of slices: the address space of 64-bit platforms
// in Go is smaller than 2^48, and a 32-bit process has room for its code.
func maxInt(h *goHash) *big.Int {
	if h.f.cfg.psz() == 4 {
		return new(big.Int).Sub(pow2(31), big.NewInt(4096))
	}
	return pow2(48)
}

var writeProps = []string{"C01", "C04", "C10", "C17", "C22", "C15"}

// scWrite: Write of n bytes in any state yields the state after n more bytes.
func (h *goHash) scWrite(rp *Report, r *Lin, nilArg bool) error {
	pos := where(h, "Write")
	return guard(func() {
		a := h.newRun()
		defer rp.events(a, "Write")
		st := h.start()
		p := rep{h.symQ(), r}
		hid := h.buildRep(a, st, p)
		var arg Value
		n := linC(0)
		var in ObjID
		if nilArg {
			arg = SliceV{Ptr{0, linC(0)}, linC(0), linC(0)}
		} else {
			n = newSym("n", big0, maxInt(h)).lin()
			c := newSym("c", big0, maxInt(h)).lin()
			st.ctx = st.ctx.withGE(c.sub(n))
			in = h.inObj(a, st, "caller's data", n, msgStream, p.total())
			arg = SliceV{Ptr{in, linC(0)}, n, c}
		}
		a.onGrow = func(a *An, st *State) { a.event(st, "grow", "Write may allocate in append") }
		a.rebase = h.rebaser(func(props []string, ok bool, msg, at string) {
			if !ok {
				props = []string{"C01"}
			}
			rp.add("write-block", msg, at, append(props, "C04")...)
		})
		outs := a.harness(st, h.method("Write"), Ptr{hid, linC(0)}, arg)
		rp.Counts["write paths"] += len(outs)
		rp.each(a, outs, "Write", func(o Out) {
			tv, ok := o.val.(Tuple)
			if !ok || len(tv) != 2 {
				giveUp("Write returns %s", vstr(o.val))
			}
			if l, ok := a.linOf(o.st, tv[0].(Num), true); !ok || !o.st.ctx.eq0(l.sub(n)) {
				rp.add("write-count", fmt.Sprintf("Write returns %s for %s bytes", vstr(tv[0]), n), pos, "C22")
			}
			if isNil, known := isNilErr(tv[1]); !known || !isNil {
				rp.add("write-error", "Write may return an error", pos, "C22")
			}
			a.fold(a, o.st)
			var more []string
			blamed := false
			diffs := h.isRep(a, o.st, hid, p.total().add(n))
			if len(diffs) > 0 {
				more, blamed = h.blame(a, o.st, hid)
			}
			for _, d := range diffs {
				props := []string{"C04", "C01"}
				if blamed {
					props = []string{"C04"}
				}
				if strings.HasPrefix(d, "col") {
					props = []string{"C10"}
				}
				props = append(props, more...)
				rp.add("write-appends", fmt.Sprintf("after Write of n=%s bytes with %s bytes buffered (%v): %s", n, r, o.st.ctx.cons, d), pos, props...)
			}
			if !nilArg && h.retains(a, o.st, hid, in) {
				rp.add("write-retains", "the hash keeps a reference to the caller's slice", pos, "C15")
			}
		})
		rp.rule("Write maps the state after T bytes to the state after T+n bytes, for all T, n and contents")
	})
}

// missingMethods lists the methods of hash.Hash, of the collision-resistant
// interface and, if asked for, of binary marshalling that t does not have.
func missingMethods(t types.Type, marshal bool) (out []string) {
	u := types.Typ
	bs, e := types.NewSlice(u[types.Byte]), types.Universe.Lookup("error").Type()
	tup := func(ts ...types.Type) *types.Tuple {
		var vs []*types.Var
		for _, t := range ts {
			vs = append(vs, types.NewVar(0, nil, "", t))
		}
		return types.NewTuple(vs...)
	}
	want := map[string]*types.Signature{
		"Write":                 types.NewSignatureType(nil, nil, nil, tup(bs), tup(u[types.Int], e), false),
		"Sum":                   types.NewSignatureType(nil, nil, nil, tup(bs), tup(bs), false),
		"Reset":                 types.NewSignatureType(nil, nil, nil, nil, nil, false),
		"Size":                  types.NewSignatureType(nil, nil, nil, nil, tup(u[types.Int]), false),
		"BlockSize":             types.NewSignatureType(nil, nil, nil, nil, tup(u[types.Int]), false),
		"CollisionResistantSum": types.NewSignatureType(nil, nil, nil, tup(bs), tup(bs, u[types.Bool]), false),
	}
	if marshal {
		want["MarshalBinary"] = types.NewSignatureType(nil, nil, nil, nil, tup(bs, e), false)
		want["UnmarshalBinary"] = types.NewSignatureType(nil, nil, nil, tup(bs), tup(e), false)
	}
	ms := types.NewMethodSet(t)
	for _, n := range sortedKeys(want) {
		if m := ms.Lookup(nil, n); m == nil || !types.Identical(m.Type(), want[n]) {
			out = append(out, n)
		}
	}
	return
}

func (h *goHash) scNew(rp *Report) error {
	return guard(func() {
		a := h.newRun()
		defer rp.events(a, "New")
		st := h.start()
		fn := h.pkg.Func("New")
		outs := a.harness(st, fn)
		rp.each(a, outs, "New", func(o Out) {
			iv, ok := o.val.(Iface)
			if !ok || iv.typ == nil {
				giveUp("New returns %s", vstr(o.val))
			}
			for _, m := range missingMethods(iv.typ, !h.c) {
				rp.add("interface", fmt.Sprintf("the hash returned by New, %s, has no method %s", iv.typ, m), h.f.posStr(fn.Pos()), "C22")
			}
			rp.Counts["interface obligations"]++
			p, ok := iv.v.(Ptr)
			if !ok {
				giveUp("New returns %s", vstr(o.val))
			}
			if p.obj < 0 || a.obj(o.st, p.obj).meta.global {
				rp.add("new-fresh", "New returns a shared object", h.f.posStr(fn.Pos()), "C16", "C12")
			}
			for _, d := range h.isRep(a, o.st, p.obj, linC(0)) {
				rp.add("new-initial", "New: "+d, h.f.posStr(fn.Pos()), "C01", "C12")
			}
		})
		rp.rule("New returns a fresh object in the initial state")
	})
}

// readOnly marks the hash, and what it refers to, as only to be read.
func (h *goHash) readOnly(a *An, st *State, hid ObjID) {
	for id := range a.reach(st, nil, []ObjID{hid}) {
		if o := a.obj(st, id); !o.meta.global && !o.meta.ro {
			o.meta.self = true
		}
	}
}

// scFresh follows short histories from New, where every field has the value
// the code gave it: results are not kept by the hash, two results are
// different memory, and the hash is in the expected state in between.
func (h *goHash) scFresh(rp *Report, fed int64, name string) error {
	fn, wf := h.method(name), h.method("Write")
	if fn == nil {
		return nil
	}
	pos := where(h, name)
	return guard(func() {
		a := h.newRun()
		st := h.start()
		rp.each(a, a.harness(st, h.pkg.Func("New")), "New", func(o Out) {
			iv, ok := o.val.(Iface)
			if !ok {
				giveUp("New returns %s", vstr(o.val))
			}
			hp, ok := iv.v.(Ptr)
			if !ok {
				giveUp("New returns %s", vstr(o.val))
			}
			hid := hp.obj
			a.roots = append(a.roots, hid)
			then := func(st *State) {
				rp.Counts["histories from New"]++
				h.result(rp, a, st, hid, name, fn, pos, func(st *State, id ObjID) {
					for _, d := range h.isRep(a, st, hid, linC(fed)) {
						rp.add("fresh-pure", fmt.Sprintf("New, Write of %d bytes, %s: %s", fed, name, d), pos, "C11")
					}
					h.result(rp, a, st, hid, name, fn, pos, func(st *State, id2 ObjID) {
						if id == id2 {
							rp.add("result-shared", "two calls of "+name+" return the same memory", pos, "C15")
						}
					})
				})
			}
			if fed == 0 {
				then(o.st)
				return
			}
			in := h.inObj(a, o.st, "caller's data", linC(fed), msgStream, linC(0))
			rp.each(a, a.harness(o.st.clone(), wf, hp, SliceV{Ptr{in, linC(0)}, linC(fed), linC(fed)}), "Write", func(w Out) {
				if h.retains(a, w.st, hid, in) {
					rp.add("write-retains", "the hash keeps a reference to the caller's slice", where(h, "Write"), "C15")
				}
				then(w.st)
			})
		})
		rp.rule("from New: what Sum, CollisionResistantSum and MarshalBinary return is not kept by the hash and not returned twice")
	})
}

// result calls fn on the hash and passes on the memory of the slice it returns.
func (h *goHash) result(rp *Report, a *An, st *State, hid ObjID, name string, fn *ssa.Function, pos string, then func(st *State, id ObjID)) {
	args := []Value{Ptr{hid, linC(0)}}
	if name != "MarshalBinary" {
		args = append(args, SliceV{Ptr{0, linC(0)}, linC(0), linC(0)})
	}
	rp.each(a, a.harness(st.clone(), fn, args...), name, func(o Out) {
		res := o.val
		if tv, ok := res.(Tuple); ok && len(tv) > 0 {
			res = tv[0]
		}
		sl, ok := res.(SliceV)
		if !ok {
			giveUp("%s returns %s", name, vstr(res))
		}
		if sl.p.nil() {
			return
		}
		if sl.p.obj == hid || a.obj(o.st, sl.p.obj).meta.global || h.retains(a, o.st, hid, sl.p.obj) {
			rp.add("result-kept", "the hash keeps a reference to the memory "+name+" returns", pos, "C15")
		}
		a.roots = append(a.roots, sl.p.obj)
		then(o.st, sl.p.obj)
	})
}

// scFallback: without cgo, the cgo package's New returns a new Go hash.
func (h *goHash) scFallback(rp *Report) error {
	p := h.f.pkg(modPath + "/cgo")
	if p == nil || p.Func("New") == nil {
		rp.add("fallback", "the cgo package has no New without cgo", modPath+"/cgo", "C03", "C21")
		return nil
	}
	fn := p.Func("New")
	return guard(func() {
		a := h.newRun()
		defer rp.events(a, "New without cgo")
		st := h.start()
		rp.each(a, a.harness(st, fn), "New", func(o Out) {
			iv, ok := o.val.(Iface)
			if !ok || iv.typ == nil {
				giveUp("New returns %s", vstr(o.val))
			}
			for _, m := range missingMethods(iv.typ, false) {
				rp.add("interface", fmt.Sprintf("without cgo, the hash returned by New, %s, has no method %s", iv.typ, m), h.f.posStr(fn.Pos()), "C22", "C03")
			}
			rp.Counts["interface obligations"]++
			pt, ok := iv.typ.(*types.Pointer)
			if !ok || !types.Identical(pt.Elem(), h.typ) {
				giveUp("New of the fallback returns %s", iv.typ)
			}
			for _, d := range h.isRep(a, o.st, iv.v.(Ptr).obj, linC(0)) {
				rp.add("fallback-new", "New without cgo: "+d, h.f.posStr(fn.Pos()), "C03", "C12")
			}
		})
		rp.rule("without cgo, the cgo package returns a new Go hash")
	})
}

func (h *goHash) scReset(rp *Report) error {
	pos := where(h, "Reset")
	return guard(func() {
		a := h.newRun()
		defer rp.events(a, "Reset")
		st := h.start()
		hid, _ := h.buildJunk(a, st)
		rp.each(a, a.harness(st, h.method("Reset"), Ptr{hid, linC(0)}), "Reset", func(o Out) {
			for _, d := range h.isRep(a, o.st, hid, linC(0)) {
				rp.add("reset-initial", "after Reset: "+d, pos, "C12")
			}
		})
		rp.rule("Reset of any state gives the state of a new hash")
	})
}

func (h *goHash) scSizes(rp *Report) error {
	return guard(func() {
		for _, x := range []struct {
			m string
			v int64
		}{{"Size", 20}, {"BlockSize", 64}} {
			a := h.newRun()
			st := h.start()
			hid := h.buildRep(a, st, rep{h.symQ(), symR()})
			h.readOnly(a, st, hid)
			rp.each(a, a.harness(st, h.method(x.m), Ptr{hid, linC(0)}), x.m, func(o Out) {
				n, ok := o.val.(Num)
				if !ok {
					giveUp("%s returns %s", x.m, vstr(o.val))
				}
				if l, ok := a.linOf(o.st, n, true); !ok || !o.st.ctx.eq0(l.addC(-x.v)) {
					rp.add("sizes", fmt.Sprintf("%s returns %s", x.m, n), where(h, x.m), "C22")
				}
			})
			rp.events(a, x.m)
		}
		rp.rule("Size and BlockSize return 20 and 64 in every state")
	})
}

// padRef is the reference for finishing a message: the implementation's own
// block processing applied to the padded tail.
type padRef struct {
	h   [5]*Term
	col B
}

func (h *goHash) padded(p rep, h0 [5]*Term, col B, tail *Stream) (*padRef, error) {
	r, _ := p.r.int()
	c := p.pos()
	ln := linToTerm(64, p.total())
	bl := tShl(64, ln, 3)
	blocks := int64(1)
	if r >= 56 {
		blocks = 2
	}
	content := []Seg{}
	if r > 0 {
		content = append(content, Seg{linC(0), linC(r), cSrc{tail, c}})
	}
	content = append(content, cell(r, 1, numC(8, 0x80)))
	if z := blocks*64 - 8; r+1 < z {
		content = append(content, Seg{linC(r + 1), linC(z), cZero{}})
	}
	for i := int64(0); i < 8; i++ {
		content = append(content, cell(blocks*64-8+i, 1, num(8, tAnd(tShr(bl, int(56-8*i)), tC(0xff)))))
	}
	a := h.newRun()
	for b := int64(0); b < blocks; b++ {
		seg := a.readSegs(emptyCtx, &Obj{segs: content}, linC(64*b), linC(64*b+64))
		rf := h.refOf(c.addC(64*b), h0, col, seg)
		if !rf.ok {
			return nil, fmt.Errorf("%s", rf.err)
		}
		h0, col = rf.h, rf.col
	}
	return &padRef{h0, col}, nil
}

// digestWord reads big-endian word j of a digest at p.
func digestWord(a *An, st *State, p Ptr, j int64) *Term {
	o := a.obj(st, p.obj)
	segs := a.readSegs(st.ctx, o, p.off.addC(4*j), p.off.addC(4*j+4))
	return wordBE(a, st.ctx, segs, 0)
}

func wordBE(a *An, ctx *Ctx, segs []Seg, at int64) *Term {
	t := tC(0)
	for i := int64(0); i < 4; i++ {
		t = tXor(t, tShl(32, a.byteOf(ctx, segs, at+i), int(24-8*i)))
	}
	return t
}

func sameUnder(x, y *Term, p B) bool { return x == y || under(x, p) == under(y, p) }

// scSum: Sum and CollisionResistantSum for a buffered length r (constant).
func (h *goHash) scSum(rp *Report, r int64, name string, nilArg bool) error {
	pos := where(h, name)
	fn := h.method(name)
	if fn == nil {
		rp.add("api", "method "+name+" is missing", h.f.posStr(h.typ.Obj().Pos()), "C22")
		return nil
	}
	return guard(func() {
		a := h.newRun()
		defer rp.events(a, name)
		st := h.start()
		p := rep{h.symQ(), linC(r)}
		hid := h.buildRep(a, st, p)
		h.readOnly(a, st, hid)
		var h0 [5]*Term
		for j := range h0 {
			h0[j] = hAtom(j, p.pos())
		}
		want, err := h.padded(p, h0, colAtom(p.pos()), msgStream)
		if err != nil {
			giveUp("%v", err)
		}
		L, C := linC(0), linC(0)
		var in ObjID
		pre := &Stream{name: "prefix"}
		arg := SliceV{Ptr{0, linC(0)}, L, C}
		if !nilArg {
			L = newSym("L", big0, new(big.Int).Sub(maxInt(h), big.NewInt(64))).lin()
			C = newSym("C", big0, maxInt(h)).lin()
			st.ctx = st.ctx.withGE(C.sub(L))
			if visitAll != nil {
				// only what happens with enough room is of interest
				st.ctx = st.ctx.withGE(C.sub(L).addC(-20))
			}
			in = a.newObj(st, &ObjMeta{name: "caller's slice", kind: "input"}, C, []Seg{{linC(0), C, cSrc{pre, linC(0)}}})
			a.roots = append(a.roots, in)
			arg = SliceV{Ptr{in, linC(0)}, L, C}
		}
		st0 := st.clone()
		if !nilArg {
			room := C.sub(L).addC(-20)
			a.onGrow = func(a *An, st *State) {
				if st.ctx.withGE(room).feasible() {
					a.event(st, "grow", name+" into a slice with enough capacity may allocate in append")
				}
			}
		}
		outs := a.harness(st, fn, Ptr{hid, linC(0)}, arg)
		rp.Counts["sum paths"] += len(outs)
		rp.each(a, outs, name, func(o Out) {
			res := o.val
			var verdict Value
			if tv, ok := res.(Tuple); ok && len(tv) == 2 {
				res, verdict = tv[0], tv[1]
			}
			sl, ok := res.(SliceV)
			if !ok {
				giveUp("%s returns %s", name, vstr(res))
			}
			ctx := o.st.ctx
			if !ctx.eq0(sl.len.sub(L).addC(-20)) {
				rp.add("sum-length", fmt.Sprintf("%s returns %s bytes for a prefix of %s bytes", name, sl.len, L), pos, "C22", "C15")
				return
			}
			if sl.p.nil() || !ctx.ge0(sl.cap.sub(sl.len)) {
				rp.add("sum-length", fmt.Sprintf("%s returns a slice without room for the digest", name), pos, "C15", "C17")
				return
			}
			if sl.p.obj == hid || a.obj(o.st, sl.p.obj).meta.global {
				rp.add("sum-alias", name+" returns memory of "+a.obj(o.st, sl.p.obj).meta.name, pos, "C15", "C16")
			} else if h.retains(a, o.st, hid, sl.p.obj) {
				rp.add("sum-alias", name+" returns memory the hash keeps a reference to", pos, "C15")
			}
			if !ctx.eq0(L) {
				segs := coalesce(ctx, a.readSegs(ctx, a.obj(o.st, sl.p.obj), sl.p.off, sl.p.off.add(L)))
				if !h.srcIs(a, o.st, segs, L, pre, linC(0)) {
					rp.add("sum-prefix", fmt.Sprintf("result of %s does not start with its argument: %s", name, segStr(segs)), pos, "C15")
				}
				segs = coalesce(ctx, a.readSegs(ctx, a.obj(o.st, in), linC(0), L))
				if !h.srcIs(a, o.st, segs, L, pre, linC(0)) {
					rp.add("sum-prefix", fmt.Sprintf("%s modifies its argument", name), pos, "C15")
				}
			}
			if !nilArg && sl.p.obj != in {
				// spare capacity of an argument that is not returned may be written
				rp.Counts["sum reallocations"]++
			}
			dp := Ptr{sl.p.obj, sl.p.off.add(L)}
			var got [5]*Term
			for j := range got {
				got[j] = digestWord(a, o.st, dp, int64(j))
			}
			gotCol := want.col
			if verdict != nil {
				b, ok := verdict.(Bool)
				if !ok {
					giveUp("verdict is %s", vstr(verdict))
				}
				gotCol = b.b
			}
			for j := range got {
				if !sameUnder(got[j], want.h[j], o.st.pred) {
					determined(gotCol, got[j])
					props := append([]string{"C23"}, judge(o.st.pred, colAtom(p.pos()), got, gotCol, want.h, want.col)...)
					rp.add("sum-digest", fmt.Sprintf("%s with %d bytes buffered: digest word %d is not the chaining value after the padded message", name, r, j), pos, props...)
					break
				}
			}
			if gotCol.xor(want.col).and(o.st.pred) != F {
				props := append([]string{"C10", "C23"}, judge(o.st.pred, colAtom(p.pos()), got, gotCol, want.h, want.col)...)
				rp.add("sum-verdict", fmt.Sprintf("%s with %d bytes buffered: the verdict is not that of all blocks of the padded message", name, r), pos, props...)
			}
			for _, d := range h.sameHash(a, st0, o.st, hid, p.r) {
				rp.add("sum-pure", fmt.Sprintf("%s with %d bytes buffered changes the hash: %s", name, r, d), pos, "C11")
				if strings.HasPrefix(d, "col") {
					rp.add("sum-pure-col", fmt.Sprintf("%s leaves its own verdict in the hash: %s", name, d), pos, "C10")
				}
			}
		})
		rp.rule("Sum and CollisionResistantSum append the digest of the padded message, report the verdict of all blocks, and leave the hash unchanged")
	})
}

// scOneShot: the package-level Sum.
func (h *goHash) scOneShot(rp *Report, r int64, pkg string) error {
	p := h.f.pkg(pkg)
	fn := p.Func("Sum")
	if fn == nil {
		rp.add("api", "function Sum is missing in "+pkg, pkg, "C23")
		return nil
	}
	pos := h.f.posStr(fn.Pos()) + " (Sum)"
	return guard(func() {
		a := h.newRun()
		defer rp.events(a, "Sum")
		h.summariseWrite(a)
		st := h.start()
		q := newSym("Q", big0, new(big.Int).Div(maxInt(h), big.NewInt(64))).lin()
		pp := rep{q, linC(r)}
		n := pp.total()
		st.ctx = st.ctx.withGE(linBig(maxInt(h)).sub(n))
		in := h.inObj(a, st, "caller's data", n, msgStream, linC(0))
		var h0 [5]*Term
		for j := range h0 {
			h0[j] = hAtom(j, pp.pos())
		}
		want, err := h.padded(pp, h0, colAtom(pp.pos()), msgStream)
		if err != nil {
			giveUp("%v", err)
		}
		// the empty-prefix case: no complete block
		z := rep{linC(0), linC(r)}
		for j := range h0 {
			h0[j] = hAtom(j, linC(0))
		}
		wantZ, err := h.padded(z, h0, F, msgStream)
		if err != nil {
			giveUp("%v", err)
		}
		outs := a.harness(st, fn, SliceV{Ptr{in, linC(0)}, n, n})
		rp.Counts["one-shot paths"] += len(outs)
		rp.each(a, outs, "Sum", func(o Out) {
			tv, ok := o.val.(Tuple)
			if !ok || len(tv) != 2 {
				giveUp("Sum returns %s", vstr(o.val))
			}
			var dig []Seg
			switch g := tv[0].(type) {
			case Agg:
				if g.size == 20 {
					dig = g.segs
				}
			case SliceV:
				if !g.p.nil() && o.st.ctx.eq0(g.len.addC(-20)) {
					dig = a.readSegs(o.st.ctx, a.obj(o.st, g.p.obj), g.p.off, g.p.off.add(g.len))
					if g.p.obj == in || a.obj(o.st, g.p.obj).meta.global {
						rp.add("sum-alias", "Sum returns memory of "+a.obj(o.st, g.p.obj).meta.name, pos, "C15", "C16")
					}
				}
			}
			if dig == nil {
				giveUp("Sum returns %s", vstr(tv[0]))
			}
			b, ok := tv[1].(Bool)
			if !ok {
				giveUp("Sum's verdict is %s", vstr(tv[1]))
			}
			w, col0 := want, colAtom(pp.pos())
			if o.st.ctx.eq0(q) {
				w, col0 = wantZ, F
			}
			var got [5]*Term
			for j := range got {
				got[j] = wordBE(a, o.st.ctx, dig, int64(4*j))
			}
			for j := range got {
				if !sameUnder(got[j], w.h[j], o.st.pred) {
					determined(F, got[j])
					props := append([]string{"C23"}, judge(o.st.pred, col0, got, b.b, w.h, w.col)...)
					rp.add("oneshot-digest", fmt.Sprintf("Sum of 64*Q+%d bytes (%v): digest word %d differs from streaming: %s vs %s", r, o.st.ctx.cons, j, got[j].short(), w.h[j].short()), pos, props...)
					break
				}
			}
			if b.b.xor(w.col).and(o.st.pred) != F {
				rp.add("oneshot-verdict", fmt.Sprintf("Sum of 64*Q+%d bytes: the verdict differs from streaming", r), pos, "C23", "C10")
			}
		})
		rp.rule("package-level Sum returns the digest and verdict of streaming the same bytes")
	})
}

// summariseWrite replaces Write on a hash in a known abstract state by its
// proven summary (scenario Write); other uses are analysed in full.
func (h *goHash) summariseWrite(a *An) {
	m := h.method("Write")
	a.hooks[m.RelString(nil)] = func(a *An, st *State, args []Value) ([]Out, bool) {
		p, ok := args[0].(Ptr)
		if !ok || p.nil() || p.off.eq(linC(0)) == false || len(args) != 2 {
			return nil, false
		}
		s, ok := args[1].(SliceV)
		if !ok || s.p.nil() {
			return nil, false
		}
		o := a.obj(st, p.obj)
		if !o.size.eq(linC(h.size)) {
			return nil, false
		}
		w := h.hWord(a, st, p.obj, 0)
		n, ok := w.(Num)
		if !ok || n.term().hj != 0 {
			return nil, false
		}
		ln, ok := h.field(a, st, p.obj, "len").(Num)
		if !ok || ln.lin == nil {
			return nil, false
		}
		T := ln.lin
		if len(h.isRep(a, st, p.obj, T)) > 0 {
			return nil, false
		}
		src := coalesce(st.ctx, a.readSegs(st.ctx, a.obj(st, s.p.obj), s.p.off, s.p.off.add(s.len)))
		if len(src) != 1 || !h.srcIs(a, st, src, s.len, msgStream, T) {
			return nil, false
		}
		nt := T.add(s.len)
		q, r := linDivMod(nt, big.NewInt(64))
		np := rep{q, r}
		tmp := newState()
		id := h.buildRep(a, tmp, np)
		a.roots = a.roots[:len(a.roots)-1]
		st.mem[p.obj] = &Obj{o.meta, o.size, tmp.mem[id].segs}
		a.cnt("summaries", 1)
		pw := int(a.psz * 8)
		return ret(st, Tuple{numL(pw, s.len), Iface{}}), true
	}
}

// ---- serialization

var marshalLen int64
var marshalIDs [][]byte
var idsKnown bool

func (h *goHash) scMarshal(rp *Report, r *Lin) error {
	mf, uf := h.method("MarshalBinary"), h.method("UnmarshalBinary")
	if mf == nil || uf == nil {
		rp.add("api", "the hash does not implement binary marshalling", h.f.posStr(h.typ.Obj().Pos()), "C22", "C13")
		return nil
	}
	pos, upos := where(h, "MarshalBinary"), where(h, "UnmarshalBinary")
	return guard(func() {
		a := h.newRun()
		defer rp.events(a, "MarshalBinary/UnmarshalBinary")
		st := h.start()
		p := rep{h.symQ(), r}
		hid := h.buildRep(a, st, p)
		h.readOnly(a, st, hid)
		jid, _ := h.buildJunk(a, st)
		st0 := st.clone()
		marshalIDs, idsKnown = nil, false
		var later []func()
		rp.each(a, a.harness(st, mf, Ptr{hid, linC(0)}), "MarshalBinary", func(o Out) {
			tv, ok := o.val.(Tuple)
			if !ok || len(tv) != 2 {
				giveUp("MarshalBinary returns %s", vstr(o.val))
			}
			if isNil, known := isNilErr(tv[1]); !known || !isNil {
				rp.add("marshal-error", "MarshalBinary may fail", pos, "C14")
				return
			}
			sl, ok := tv[0].(SliceV)
			if !ok || sl.p.nil() {
				giveUp("MarshalBinary returns %s", vstr(tv[0]))
			}
			if sl.p.obj == hid || a.obj(o.st, sl.p.obj).meta.global || h.retains(a, o.st, hid, sl.p.obj) {
				rp.add("marshal-alias", "the serialized form shares memory with "+a.obj(o.st, sl.p.obj).meta.name, pos, "C15", "C16")
			}
			for _, d := range h.sameHash(a, st0, o.st, hid, r) {
				rp.add("marshal-pure", "MarshalBinary changes the hash: "+d, pos, "C11")
			}
			ml, ok := constOf(o.st.ctx, sl.len)
			if !ok {
				rp.add("marshal-size", "the serialized form has no fixed length: "+sl.len.String(), pos, "C13", "C14")
				return
			}
			if marshalLen != 0 && marshalLen != ml {
				rp.add("marshal-size", fmt.Sprintf("the serialized form has length %d or %d", marshalLen, ml), pos, "C13", "C14")
			}
			marshalLen = ml
			segs := a.readSegs(o.st.ctx, a.obj(o.st, sl.p.obj), sl.p.off, sl.p.off.add(sl.len))
			for _, g := range segs {
				switch c := g.c.(type) {
				case cTop, cUndef:
					rp.add("marshal-leak", fmt.Sprintf("bytes %s to %s of the serialized form are not determined by the logical state", g.lo, g.hi), pos, "C13")
				case cCell:
					if n, ok := c.v.(Num); ok && n.t != nil && hasTop(n.t) {
						rp.add("marshal-leak", fmt.Sprintf("byte %s of the serialized form is not determined by the logical state", g.lo), pos, "C13")
					}
				}
			}
			h.noteIDs(a, o.st, segs)
			// restore into an unrelated hash
			st1 := o.st.clone()
			later = append(later, func() {
				rp.each(a, a.harness(st1, uf, Ptr{jid, linC(0)}, sl), "UnmarshalBinary", func(u Out) {
					if isNil, known := isNilErr(u.val); !known || !isNil {
						rp.add("roundtrip-error", "UnmarshalBinary may reject the output of MarshalBinary", upos, "C13")
						return
					}
					for _, d := range h.isRep(a, u.st, jid, p.total()) {
						props := []string{"C13"}
						rp.add("roundtrip", "restoring the serialized state: "+d, upos, props...)
					}
					if h.retains(a, u.st, jid, sl.p.obj) {
						rp.add("unmarshal-retains", "the restored hash keeps a reference to the serialized bytes", upos, "C15")
					}
				})
			})
		})
		idsKnown = true
		var err error
		for _, f := range later {
			if e := guard(f); e != nil {
				err = e
			}
		}
		if err != nil {
			giveUp("%v", err)
		}
		rp.rule("UnmarshalBinary(MarshalBinary(state)) into any hash gives the same abstract state; serialized bytes depend on the logical state only")
	})
}

func hasTop(t *Term) bool {
	return dependsOn(t, func(name string) bool { return strings.HasPrefix(name, "top(") || strings.HasPrefix(name, "undef") })
}

// determined gives up if a value depends on something the analysis lost when
// it generalised a loop: nothing can be said about it.
func determined(b B, ts ...*Term) {
	lost := func(name string) bool { return strings.HasPrefix(name, "loop!") }
	for _, t := range append([]*Term{bool2term(b)}, ts...) {
		if t != nil && dependsOn(t, lost) {
			giveUp("the generalisation of a loop loses a result")
		}
	}
}

func dependsOn(t *Term, is func(name string) bool) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	inB := func(b B) bool {
		for _, v := range bm.support(b) {
			at := &bm.atoms[v]
			if is(at.name) || at.t != nil && f(at.t) {
				return true
			}
			for _, r := range at.bits {
				if f(r.t) {
					return true
				}
			}
		}
		return false
	}
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.kind == kAtom && is(t.name) {
			return true
		}
		for _, m := range t.monos {
			for _, x := range m.fs {
				if f(x.a) {
					return true
				}
			}
		}
		for _, x := range t.adds {
			if f(x.t) {
				return true
			}
		}
		for _, x := range t.cases {
			if f(x.t) || inB(x.g) {
				return true
			}
		}
		for _, x := range t.bits {
			if inB(x) {
				return true
			}
		}
		for _, x := range t.args {
			if f(x) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// noteIDs records the constant prefixes of serialized states.
func (h *goHash) noteIDs(a *An, st *State, segs []Seg) {
	c := colAtom(linC(64))
	_ = c
	// the prefix may depend on the verdict: enumerate both values of each guard
	var guards []B
	seen := map[int]bool{}
	for i := int64(0); i < 16; i++ {
		for _, v := range termSupport(a.byteOf(st.ctx, segs, i)) {
			if !seen[v] {
				seen[v] = true
				guards = append(guards, bm.lit(v))
			}
		}
	}
	if len(guards) > 4 {
		return
	}
	for m := 0; m < 1<<len(guards); m++ {
		p := st.pred
		for i, g := range guards {
			if m>>i&1 == 1 {
				p = p.and(g)
			} else {
				p = p.and(g.not())
			}
		}
		if p == F {
			continue
		}
		var id []byte
		for i := int64(0); i < 32; i++ {
			v, ok := under(a.byteOf(st.ctx, segs, i), p).isConst()
			if !ok {
				break
			}
			id = append(id, byte(v))
		}
		dup := false
		for _, x := range marshalIDs {
			if string(x) == string(id) {
				dup = true
			}
		}
		if !dup {
			marshalIDs = append(marshalIDs, id)
		}
	}
}

func termSupport(t *Term) []int {
	m := map[int]bool{}
	switch t.kind {
	case kBits:
		for _, b := range t.bits {
			for _, v := range bm.support(b) {
				m[v] = true
			}
		}
	case kCases:
		for _, c := range t.cases {
			for _, v := range bm.support(c.g) {
				m[v] = true
			}
		}
	}
	var out []int
	for v := range m {
		out = append(out, v)
	}
	return out
}

// scUnmarshal: arbitrary bytes.
func (h *goHash) scUnmarshal(rp *Report, nilArg bool) error {
	uf := h.method("UnmarshalBinary")
	if uf == nil {
		return nil
	}
	pos := where(h, "UnmarshalBinary")
	return guard(func() {
		if marshalLen == 0 || len(marshalIDs) == 0 || !idsKnown {
			giveUp("format of the serialized form is unknown")
		}
		a := h.newRun()
		defer rp.events(a, "UnmarshalBinary")
		a.exactMerge = true
		st := h.start()
		hid, p := h.buildJunk(a, st)
		n := linC(0)
		src := &Stream{name: "bytes", bitwise: true}
		arg := SliceV{Ptr{0, linC(0)}, linC(0), linC(0)}
		if !nilArg {
			n = newSym("n", big0, maxInt(h)).lin()
			in := h.inObj(a, st, "caller's bytes", n, src, linC(0))
			arg = SliceV{Ptr{in, linC(0)}, n, n}
		}
		idOK := F
		for _, id := range marshalIDs {
			m := Tr
			for i, b := range id {
				m = m.and(eqTerms(8, src.byteAt(linC(int64(i))), tC(uint64(b))))
			}
			idOK = idOK.or(m)
		}
		st0 := st.clone()
		outs := a.harness(st, uf, Ptr{hid, linC(0)}, arg)
		rp.Counts["unmarshal paths"] += len(outs)
		rp.each(a, outs, "UnmarshalBinary", func(o Out) {
			sizeOK := o.st.ctx.eq0(n.addC(-marshalLen))
			isNil, known := isNilErr(o.val)
			if !known {
				giveUp("UnmarshalBinary returns %s", vstr(o.val))
			}
			if !isNil {
				for _, d := range h.sameHash(a, st0, o.st, hid, p.r) {
					rp.add("unmarshal-atomic", "UnmarshalBinary fails after changing the hash: "+d, pos, "C14")
				}
				// an error for an acceptable string?
				if o.st.pred.and(idOK) != F && nonNeg(o.st, n.addC(-marshalLen)) && nonNeg(o.st, linC(marshalLen).sub(n)) {
					rp.add("unmarshal-rejects", "UnmarshalBinary may reject a well-formed serialized state", pos, "C14")
				}
				return
			}
			if !sizeOK {
				rp.add("unmarshal-size", fmt.Sprintf("UnmarshalBinary accepts byte strings of another length than %d (%v)", marshalLen, o.st.ctx.cons), pos, "C14")
				return
			}
			if !o.st.pred.implies(idOK) {
				rp.add("unmarshal-id", "UnmarshalBinary accepts byte strings that do not start with a known identifier", pos, "C14")
			}
			if _, ok := h.fields["nx"]; !ok {
				return
			}
			nx, ok1 := h.field(a, o.st, hid, "nx").(Num)
			ln, ok2 := h.field(a, o.st, hid, "len").(Num)
			if !ok1 || !ok2 || !sameUnder(nx.term(), tTrunc(nx.w, tAnd(ln.term(), tC(63))), o.st.pred) {
				rp.add("unmarshal-invariant", fmt.Sprintf("restored hash has %s bytes buffered for a length of %s", nx, ln), pos, "C14", "C17")
			}
		})
		rp.rule("UnmarshalBinary rejects exactly the byte strings without the right length and identifier, atomically; accepted states satisfy nx = len mod 64")
	})
}

package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
)

// Code is a control-flow graph in one of the analysed languages.
type Code interface {
	Name() string
	NBlocks() int
	Succs(b int) []int
	NInstr(b int) int
	// Step executes instruction i of block b on st. It returns nil to continue
	// with the next instruction, or the outcomes.
	Step(a *An, st *State, b, i int) []Out
	// Edge is applied when control moves from block `from` to its successor `to`.
	Edge(a *An, st *State, from, to int)
	PosOf(b, i int) string
}

type Loc struct {
	c    Code
	b, i int
}

func (l Loc) String() string {
	if l.c == nil {
		return "?"
	}
	return l.c.PosOf(l.b, l.i)
}

type outKind int

const (
	oNext outKind = iota // continue after the current instruction
	oJump
	oRet
	oPanic
)

type Out struct {
	kind outKind
	to   int
	st   *State
	val  Value
	msg  string
	pos  Loc
}

type Event struct {
	kind string
	msg  string
	pos  string
	loc  Loc
	via  string
}

// An is one analysis run.
type An struct {
	syncd        int   // inside synchronised initialisation: stores to package variables are allowed
	psz          int64 // pointer size
	objN         int
	base         map[ObjID]*Obj
	events       []Event
	evSeen       map[string]bool
	quiet        int
	depth        int
	counts       map[string]int
	readGlobals  map[string]Loc
	fold         func(a *An, st *State)
	rebase       func(a *An, key, pos string, head *State, backs []*State)
	roots        []ObjID
	calls        map[string]int
	trace        bool
	inInit       bool
	front        *goFront
	stackNames   []string
	loops        map[string]string
	hooks        map[string]func(a *An, st *State, args []Value) ([]Out, bool)
	maxUnroll    int
	steps        int
	stepLimit    int
	asmFeat      func(a *An, st *State, u *asmUnit)
	overrides    map[string]Value
	symbolicFeat bool
	siteIDs      map[string]ObjID
	onGrow       func(a *An, st *State)
	visited      map[Code]map[int]bool // blocks reached, if recorded
	lazySize     int64                 // objects of this size
	lazyRegions  [][2]int64            // are scratch memory in these regions
	exactMerge   bool                  // never join states with different linear constraints
}

// lazyFor tells which words of an object are scratch memory.
func (a *An) lazyFor(o *Obj) func(int64) bool {
	if n, ok := o.size.int(); !ok || a.lazySize == 0 || n != a.lazySize {
		return nil
	}
	return func(lo int64) bool {
		for _, r := range a.lazyRegions {
			if r[0] <= lo && lo < r[1] {
				return true
			}
		}
		return false
	}
}

func newAn(psz int64) *An {
	return &An{psz: psz, base: map[ObjID]*Obj{}, evSeen: map[string]bool{}, counts: map[string]int{}, readGlobals: map[string]Loc{},
		calls: map[string]int{}, loops: map[string]string{}, hooks: map[string]func(*An, *State, []Value) ([]Out, bool){}, siteIDs: map[string]ObjID{}, maxUnroll: 300, stepLimit: 80_000_000}
}

func (a *An) cnt(k string, n int) {
	if a.quiet == 0 {
		a.counts[k] += n
	}
}

func (a *An) event(st *State, kind, msg string) {
	if a.quiet > 0 {
		return
	}
	e := Event{kind: kind, msg: msg, pos: curPos.String(), loc: curPos, via: strings.Join(a.stackNames, " > ")}
	k := e.kind + e.pos + e.msg
	if a.evSeen[k] {
		return
	}
	a.evSeen[k] = true
	a.events = append(a.events, e)
	if a.trace {
		fmt.Fprintf(os.Stderr, "EVENT %s %s: %s (via %s)\n", kind, e.pos, msg, e.via)
	}
}

// ---- weak topological order

type wtoElem struct {
	v    int
	body []wtoElem // nil for a vertex, non-nil for a component with head v
	loop bool
}

func buildWTO(c Code) []wtoElem {
	n := c.NBlocks()
	dfn := make([]int, n)
	num := 0
	var stack []int
	const inf = 1 << 30
	var visit func(v int, part *[]wtoElem) int
	var component func(v int) wtoElem
	component = func(v int) wtoElem {
		var part []wtoElem
		for _, s := range c.Succs(v) {
			if dfn[s] == 0 {
				visit(s, &part)
			}
		}
		return wtoElem{v: v, body: rev(part), loop: true}
	}
	visit = func(v int, part *[]wtoElem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := dfn[v]
		loop := false
		for _, s := range c.Succs(v) {
			var m int
			if dfn[s] == 0 {
				m = visit(s, part)
			} else {
				m = dfn[s]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			e := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for e != v {
					dfn[e] = 0
					e = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append(*part, component(v))
			} else {
				*part = append(*part, wtoElem{v: v})
			}
		}
		return head
	}
	var part []wtoElem
	visit(0, &part)
	return rev(part)
}

func rev(p []wtoElem) []wtoElem {
	out := make([]wtoElem, 0, len(p))
	for i := len(p) - 1; i >= 0; i-- {
		out = append(out, p[i])
	}
	return out
}

var wtoCache = map[Code][]wtoElem{}

// ---- running code

type runner struct {
	a    *An
	c    Code
	pend map[int][]*State
	outs []Out
}

// run analyses code from st (whose top frame belongs to code) and returns
// merged return outcomes and panics.
func (a *An) run(c Code, st *State) []Out {
	w, ok := wtoCache[c]
	if !ok {
		w = buildWTO(c)
		wtoCache[c] = w
	}
	a.depth++
	if a.depth > 60 {
		giveUp("call depth exceeded in %s", c.Name())
	}
	rec := 0
	for _, n := range a.stackNames {
		if n == c.Name() {
			rec++
		}
	}
	if rec > 2 {
		giveUp("unbounded recursion of %s", c.Name())
	}
	a.stackNames = append(a.stackNames, c.Name())
	defer func() { a.depth--; a.stackNames = a.stackNames[:len(a.stackNames)-1] }()
	r := &runner{a: a, c: c, pend: map[int][]*State{}}
	r.pend[0] = []*State{st}
	r.comps(w)
	return a.mergeOuts(r.outs)
}

func (r *runner) comps(w []wtoElem) {
	for _, e := range w {
		if !e.loop {
			r.vertex(e.v)
		} else {
			r.loop(e)
		}
	}
}

func (r *runner) vertex(v int) {
	ss := r.pend[v]
	if len(ss) == 0 {
		return
	}
	delete(r.pend, v)
	ss = r.a.mergeStates(ss)
	for _, s := range ss {
		r.block(s, v)
	}
}

func (r *runner) block(st *State, b int) {
	type item struct {
		st *State
		i  int
	}
	work := []item{{st, 0}}
	if v := r.a.visited; v != nil {
		if v[r.c] == nil {
			v[r.c] = map[int]bool{}
		}
		v[r.c][b] = true
	}
	n := r.c.NInstr(b)
	guard := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		for it.i < n {
			guard++
			if guard > 200000 {
				giveUp("too many partitions in %s", r.c.Name())
			}
			if memoryLow.Load() {
				giveUp("the analysis needs too much memory in %s", r.c.Name())
			}
			outs, split := r.step(it.st, b, it.i)
			if split != nil {
				if r.a.trace {
					fmt.Fprintf(os.Stderr, "split at %s: %v %v\n", r.c.PosOf(b, it.i), split.e, split.g)
				}
				s1, s2 := it.st, it.st.clone()
				if split.e != nil {
					s1.ctx = s1.ctx.withGE(split.e)
					s2.ctx = s2.ctx.withGE(split.e.neg().addC(-1))
				} else {
					s1.pred = s1.pred.and(split.g)
					s2.pred = s2.pred.and(split.g.not())
				}
				f1, f2 := s1.feasible(), s2.feasible()
				if split.e != nil {
					if f1 {
						r.a.pin(s1, split.e)
					}
					if f2 {
						r.a.pin(s2, split.e)
					}
				}
				switch {
				case f1 && f2:
					work = append(work, item{s2, it.i})
				case f2:
					it.st = s2
				case !f1:
					it.i = n
				}
				continue
			}
			if outs == nil {
				it.i++
				continue
			}
			for _, o := range outs {
				switch o.kind {
				case oNext:
					work = append(work, item{o.st, it.i + 1})
				case oJump:
					r.a.edge(r.c, o.st, b, o.to)
					r.pend[o.to] = append(r.pend[o.to], o.st)
				default:
					r.outs = append(r.outs, o)
				}
			}
			it.i = n
		}
	}
}

func (a *An) edge(c Code, st *State, from, to int) {
	c.Edge(a, st, from, to)
}

func (r *runner) step(st *State, b, i int) (outs []Out, split *needSplit) {
	// an instruction may update registers before it asks for a partition
	var saved []Value
	if _, ok := r.c.(*asmUnit); ok {
		saved = append(saved, st.fr.regs...)
	}
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(needSplit); ok {
				if saved != nil {
					copy(st.fr.regs, saved)
				}
				split = &s
				return
			}
			if u, ok := e.(undecided); ok && !strings.Contains(u.msg, "\n") {
				panic(undecided{fmt.Sprintf("%s\n at %s", u.msg, r.c.PosOf(b, i))})
			}
			panic(e)
		}
	}()
	curPos = Loc{r.c, b, i}
	curPred = st.pred
	r.a.steps++
	if r.a.steps > r.a.stepLimit {
		giveUp("step limit")
	}
	return r.c.Step(r.a, st, b, i), nil
}

// ---- merging

func (a *An) mergeStates(ss []*State) []*State {
	if len(ss) <= 1 {
		return ss
	}
	var out []*State
next:
	for _, s := range ss {
		if !s.feasible() {
			continue
		}
		for i, o := range out {
			if m, ok := a.merge2(o, s); ok {
				out[i] = m
				continue next
			}
		}
		out = append(out, s)
	}
	// a second pass may merge the results further
	if len(out) > 1 && len(out) < len(ss) {
		return a.mergeStates(out)
	}
	if len(out) > 3000 {
		giveUp("more than 3000 partitions")
	}
	return out
}

func (a *An) merge2(x, y *State) (*State, bool) {
	if x.fr.parent != y.fr.parent || x.fr.code != y.fr.code || len(x.fr.defers) != len(y.fr.defers) {
		return nil, false
	}
	disjoint := x.pred.and(y.pred) == F
	sameCtx := x.ctx.same(y.ctx)
	strict := !(disjoint && sameCtx)
	if a.exactMerge && !sameCtx {
		return nil, false
	}
	var g B
	p := x.pred.or(y.pred)
	if !strict {
		g = bm.restrict(x.pred, p)
	}
	ctx := x.ctx
	mv := func(u, v Value) (Value, bool) {
		if strict {
			if a.valEq(nil, u, v) {
				return u, true
			}
			if _, ok := u.(TopV); ok {
				return u, true
			}
			if _, ok := v.(TopV); ok {
				return v, true
			}
			return nil, false
		}
		return a.mergeVal(ctx, g, u, v)
	}
	regs := make([]Value, len(x.fr.regs))
	for i := range regs {
		u, v := x.fr.regs[i], y.fr.regs[i]
		if u == nil || v == nil {
			continue
		}
		m, ok := mv(u, v)
		if !ok {
			return nil, false
		}
		regs[i] = m
	}
	mem := make(map[ObjID]*Obj, len(x.mem))
	for id, o := range x.mem {
		p, ok := y.mem[id]
		if !ok {
			if b, isBase := a.base[id]; isBase {
				p = b
			} else {
				mem[id] = o
				continue
			}
		}
		if o == p {
			mem[id] = o
			continue
		}
		if strict {
			if !a.segsEq(nil, o.segs, p.segs) {
				return nil, false
			}
			mem[id] = o
			continue
		}
		s, ok := a.mergeSegsIn(ctx, g, o.segs, p.segs, a.lazyFor(o))
		if !ok {
			return nil, false
		}
		mem[id] = &Obj{o.meta, o.size, s}
	}
	for id, o := range y.mem {
		if _, ok := x.mem[id]; !ok {
			if b, isBase := a.base[id]; isBase {
				if strict {
					if !a.segsEq(nil, o.segs, b.segs) {
						return nil, false
					}
				} else {
					s, ok := a.mergeSegs(ctx, g, b.segs, o.segs)
					if !ok {
						return nil, false
					}
					o = &Obj{o.meta, o.size, s}
				}
			}
			mem[id] = o
		}
	}
	f := *x.fr
	f.regs = regs
	c := ctx
	if !sameCtx {
		c = x.ctx.join(y.ctx)
	}
	return &State{p, c, mem, &f}, true
}

func (a *An) mergeOuts(in []Out) []Out {
	var rets []Out
	var rest []Out
next:
	for _, o := range in {
		if !o.st.feasible() {
			continue
		}
		if o.kind != oRet {
			rest = append(rest, o)
			continue
		}
		// dead registers of the finished frame
		f := *o.st.fr
		f.regs = []Value{o.val}
		f.defers = nil
		o.st = &State{o.st.pred, o.st.ctx, o.st.mem, &f}
		a.gc(o.st)
		for i := range rets {
			if m, ok := a.merge2(rets[i].st, o.st); ok {
				rets[i].st = m
				rets[i].val = m.fr.regs[0]
				continue next
			}
		}
		rets = append(rets, o)
	}
	if len(rets) > 1 {
		// second chance
		n := len(rets)
		var again []Out
	nx:
		for _, o := range rets {
			for i := range again {
				if m, ok := a.merge2(again[i].st, o.st); ok {
					again[i].st = m
					again[i].val = m.fr.regs[0]
					continue nx
				}
			}
			again = append(again, o)
		}
		if len(again) < n {
			return a.mergeOuts(append(again, rest...))
		}
		rets = again
	}
	return append(rets, rest...)
}

// ---- garbage collection of unreachable objects

func (a *An) reach(st *State, roots []Value, ids []ObjID) map[ObjID]bool {
	seen := map[ObjID]bool{}
	var queue []ObjID
	add := func(id ObjID) {
		if id != 0 && !seen[id] {
			seen[id] = true
			queue = append(queue, id)
		}
	}
	var val func(v Value)
	var segs func(ss []Seg)
	val = func(v Value) {
		switch v := v.(type) {
		case Ptr:
			add(v.obj)
		case SliceV:
			add(v.p.obj)
		case StrV:
			add(v.p.obj)
		case Iface:
			val(v.v)
		case FuncV:
			for _, b := range v.binds {
				val(b)
			}
		case Tuple:
			for _, b := range v {
				val(b)
			}
		case Agg:
			segs(v.segs)
		}
	}
	segs = func(ss []Seg) {
		for _, s := range ss {
			if c, ok := s.c.(cCell); ok {
				val(c.v)
			}
		}
	}
	for _, v := range roots {
		val(v)
	}
	for _, id := range ids {
		add(id)
	}
	for len(queue) > 0 {
		id := queue[0]
		queue = queue[1:]
		o, ok := st.mem[id]
		if !ok {
			o, ok = a.base[id]
		}
		if ok {
			segs(o.segs)
		}
	}
	return seen
}

func (a *An) gc(st *State) {
	var roots []Value
	for f := st.fr; f != nil; f = f.parent {
		roots = append(roots, f.regs...)
		roots = append(roots, f.defers...)
	}
	ids := append([]ObjID{}, a.roots...)
	for id := range st.mem {
		if _, ok := a.base[id]; ok {
			ids = append(ids, id)
		}
	}
	live := a.reach(st, roots, ids)
	for id := range st.mem {
		if !live[id] {
			delete(st.mem, id)
		}
	}
}

// ---- loops

func (r *runner) iterate(e wtoElem, s *State) (exits map[int][]*State, backs []*State, outs []Out) {
	sub := &runner{a: r.a, c: r.c, pend: map[int][]*State{}}
	var s0 *State
	if r.a.rebase != nil {
		s0 = s.clone()
	}
	sub.block(s, e.v)
	sub.comps(e.body)
	backs = sub.pend[e.v]
	delete(sub.pend, e.v)
	if s0 != nil && len(backs) > 0 {
		r.a.rebase(r.a, fmt.Sprintf("%s:%d", r.c.Name(), e.v), r.c.PosOf(e.v, 0), s0, backs)
	}
	return sub.pend, backs, sub.outs
}

// iterateP also follows the states that leave the loop in the next iteration,
// if there are several ways back to the head.
func (r *runner) iterateP(e wtoElem, s *State) (exits map[int][]*State, backs []*State, outs []Out) {
	exits, backs, outs = r.iterate(e, s)
	return r.peel(e, exits, backs, outs)
}

func (r *runner) peel(e wtoElem, exits map[int][]*State, backs []*State, outs []Out) (map[int][]*State, []*State, []Out) {
	if len(backs) < 2 {
		return exits, backs, outs
	}
	backs = r.a.mergeStates(feas(backs))
	if len(backs) < 2 {
		return exits, backs, outs
	}
	var keep []*State
	for _, b := range backs {
		ex, bs, os := r.iterate(e, b.clone())
		if len(feas(bs)) > 0 {
			keep = append(keep, b)
			continue
		}
		for k, v := range ex {
			exits[k] = append(exits[k], v...)
		}
		outs = append(outs, os...)
	}
	return exits, keep, outs
}

func (a *An) prep(s *State) *State {
	if a.fold != nil {
		a.fold(a, s)
	}
	a.gc(s)
	return s
}

func (r *runner) loop(e wtoElem) {
	a := r.a
	cur := a.mergeStates(r.pend[e.v])
	delete(r.pend, e.v)
	accel := 0
	for iter := 0; len(cur) > 0; iter++ {
		if iter > a.maxUnroll {
			giveUp("loop at %s not bounded after %d iterations", r.c.PosOf(e.v, 0), iter)
		}
		var nxt []*State
		for _, s := range cur {
			if iter == 0 || accel > 0 {
				s = a.prep(s)
			}
			s0 := s.clone()
			exits, backs, outs := r.iterate(e, s)
			sym := len(backs) > 0 && r.symbolic(exits, outs, backs)
			if !sym && len(backs) > 1 && accel < 12 && waysDiffer(backs) {
				// one way back leaves in the next iteration, the other goes on
				n := len(backs)
				exits, backs, outs = r.peel(e, exits, backs, outs)
				sym = len(backs) == 1 && n > 1
			}
			if !sym && iter >= 3 && len(backs) == 1 && len(exits) == 0 && len(outs) == 0 && longLoop(s0, backs[0]) {
				// the number of iterations is not known, but large
				sym = true
			}
			if sym && len(backs) > 0 && accel < 12 {
				if accel == 0 && iter > 0 && a.fold != nil {
					s0 = a.prep(s0)
					exits, backs, outs = r.iterate(e, s0.clone())
				}
				accel++
				exits, backs, outs = r.peel(e, exits, backs, outs)
				if len(backs) == 0 {
					r.addExits(exits)
					r.outs = append(r.outs, outs...)
					continue
				}
				if ex, os, ok := r.accelerate(e, s0, backs); ok {
					r.addExits(ex)
					r.outs = append(r.outs, os...)
					continue
				}
			}
			r.addExits(exits)
			r.outs = append(r.outs, outs...)
			nxt = append(nxt, backs...)
		}
		cur = a.mergeStates(nxt)
	}
}

// longLoop recognises a loop driven by a quantity that is not constant, and
// by nothing that is, although its next iteration is certain.
func longLoop(s0, s1 *State) bool {
	if s0.fr == nil || s1.fr == nil || len(s0.fr.regs) != len(s1.fr.regs) {
		return false
	}
	steps := false
	for i, x := range s0.fr.regs {
		var l0, l1 *Lin
		switch v := x.(type) {
		case Num:
			w, ok := s1.fr.regs[i].(Num)
			if !ok {
				continue
			}
			l0, l1 = v.lin, w.lin
			if l0 == nil || l1 == nil {
				continue
			}
			if l0.isConst() && l1.isConst() && !l0.eq(l1) {
				return false
			}
		case SliceV:
			w, ok := s1.fr.regs[i].(SliceV)
			if !ok {
				continue
			}
			l0, l1 = v.len, w.len
		default:
			continue
		}
		if d := l1.sub(l0); !l0.isConst() && d.isConst() && d.k.Sign() != 0 {
			steps = true
		}
	}
	return steps
}

func waysDiffer(ss []*State) bool {
	for _, x := range ss[1:] {
		if !x.ctx.same(ss[0].ctx) && x.pred.and(ss[0].pred) != F {
			return true
		}
	}
	return false
}

func (r *runner) addExits(ex map[int][]*State) {
	var ks []int
	for k := range ex {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		r.pend[k] = append(r.pend[k], ex[k]...)
	}
}

func (r *runner) symbolic(exits map[int][]*State, outs []Out, backs []*State) bool {
	for _, b := range backs {
		for _, es := range exits {
			for _, x := range es {
				if x.pred.and(b.pred) != F && !x.ctx.same(b.ctx) && x.feasible() && b.feasible() {
					return true
				}
			}
		}
		for _, o := range outs {
			if o.kind == oRet && o.st.pred.and(b.pred) != F && !o.st.ctx.same(b.ctx) && o.st.feasible() && b.feasible() {
				return true
			}
		}
	}
	return false
}

// accelerate generalises the loop head state over the iteration number.
func (r *runner) accelerate(e wtoElem, s0 *State, backs []*State) (map[int][]*State, []Out, bool) {
	a := r.a
	bs := a.mergeStates(backs)
	if len(bs) != 1 {
		a.note(r.c, e.v, fmt.Sprintf("%d back states", len(bs)))
		return nil, nil, false
	}
	s1 := a.prep(bs[0])
	t := newSym("iter", big0, nil)
	g := a.antiUnify(s0, s1, t)
	if g == nil {
		a.note(r.c, e.v, "states do not generalise")
		return nil, nil, false
	}
	g.ctx = s0.ctx
	// candidate invariants: decreasing counters stay non-negative
	var cand []Constraint
	addCand := func(l *Lin) {
		if l == nil || l.coef(t).Sign() >= 0 {
			return
		}
		k := Constraint{l, false}
		if !s0.ctx.entails(Constraint{l.subst(t, linC(0)), false}) {
			return
		}
		for _, c := range cand {
			if c.e.eq(l) {
				return
			}
		}
		cand = append(cand, k)
	}
	for _, v := range g.fr.regs {
		if n, ok := v.(Num); ok {
			addCand(n.lin)
		}
	}
	// and increasing ones stay within what the loop walks through
	for _, v := range g.fr.regs {
		n, ok := v.(Num)
		if !ok || n.lin == nil || n.lin.coef(t).Sign() <= 0 {
			continue
		}
		for _, u := range g.fr.regs {
			switch x := u.(type) {
			case SliceV:
				if x.len != nil && !x.len.isConst() && x.len.coef(t).Sign() == 0 {
					addCand(x.len.sub(n.lin))
				}
			case Num:
				if x.lin != nil && !x.lin.isConst() && len(x.lin.ts) == 1 && x.lin.coef(t).Sign() == 0 {
					addCand(x.lin.sub(n.lin))
				}
			}
		}
	}
	for _, o := range g.mem {
		for _, sg := range o.segs {
			if c, ok := sg.c.(cCell); ok {
				if n, ok := c.v.(Num); ok {
					addCand(n.lin)
				}
			}
		}
	}
	a.quiet++
	saveFold := a.fold
	ok := func() bool {
		defer func() { a.quiet-- }()
		for try := 0; try < 10; try++ {
			g.ctx = s0.ctx
			for _, k := range cand {
				g.ctx = g.ctx.with(k)
			}
			mark := Sym(len(syms))
			_, b1, _ := r.iterateP(e, g.clone())
			b1 = feas(b1)
			if len(b1) == 0 {
				return false
			}
			// constraints established by the body on every way back
			inv := []Constraint{}
			for _, k := range b1[0].ctx.cons {
				if g.ctx.has(k) {
					continue
				}
				all := true
				for _, t := range k.e.ts {
					if t.s >= mark {
						all = false
					}
				}
				for _, o := range b1[1:] {
					if !o.ctx.entails(k) {
						all = false
					}
				}
				if !all {
					continue
				}
				at := Constraint{k.e.subst(t, t.lin().addC(-1)), k.eq}
				if s0.ctx.entails(Constraint{at.e.subst(t, linC(0)), k.eq}) {
					inv = append(inv, at)
				}
			}
			for _, k := range inv {
				g.ctx = g.ctx.with(k)
			}
			_, b2, _ := r.iterateP(e, g.clone())
			b2 = a.mergeStates(feas(b2))
			if len(b2) == 0 {
				return false
			}
			changed := false
			for _, s := range b2 {
				s = a.prep(s)
				if a.weaken(g, s, t) {
					changed = true
				}
				var keep []Constraint
				for _, k := range cand {
					if s.ctx.entails(Constraint{k.e.subst(t, t.lin().addC(1)), k.eq}) {
						keep = append(keep, k)
					} else {
						changed = true
					}
				}
				cand = keep
				for _, k := range inv {
					if !s.ctx.entails(Constraint{k.e.subst(t, t.lin().addC(1)), k.eq}) {
						a.note(r.c, e.v, "invariant not inductive: "+k.String())
						return false
					}
				}
			}
			if !changed {
				// termination: some constraint bounds the iteration count
				bounded := false
				for _, s := range b2 {
					for _, k := range s.ctx.cons {
						if k.e.coef(t).Sign() < 0 {
							if _, hi := k.e.subst(t, linC(0)).interval(); hi != nil {
								bounded = true
							}
						}
					}
				}
				if !bounded {
					a.quiet--
					a.event(g, "nonterm", fmt.Sprintf("no bound on the number of iterations of the loop at %s", r.c.PosOf(e.v, 0)))
					a.quiet++
				}
				return true
			}
		}
		a.note(r.c, e.v, "no inductive generalisation found")
		return false
	}()
	a.fold = saveFold
	if !ok {
		return nil, nil, false
	}
	if a.rebase != nil && chains(g) < chains(s0) {
		a.note(r.c, e.v, "the generalisation loses the chaining value")
		return nil, nil, false
	}
	inv := g.ctx
	exits, _, outs := r.iterateP(e, g.clone())
	for _, ss := range exits {
		for _, s := range ss {
			if s.feasible() {
				a.elimIter(s, t)
			}
		}
	}
	for i := range outs {
		if outs[i].kind == oRet && outs[i].st.feasible() {
			v := outs[i].val
			if q := a.elimIter(outs[i].st, t); q != nil {
				outs[i].val = a.mapVal(v, func(l *Lin) *Lin { return l.subst(t, q) })
			}
		}
	}
	a.loops[r.c.PosOf(e.v, 0)] = fmt.Sprintf("generalised over the iteration count; invariant %v", inv.cons)
	return exits, outs, true
}

// chains counts the complete chaining values a state holds.
func chains(s *State) (n int) {
	got := map[string]*[5]int{}
	places(s, func(p place, v Value) {
		if x, ok := v.(Num); ok && x.t != nil && x.t.kind == kAtom && x.t.off != nil && x.t.hj >= 0 {
			k := x.t.off.key()
			if got[k] == nil {
				got[k] = &[5]int{}
			}
			got[k][x.t.hj]++
		}
	})
	for _, g := range got {
		n += min(g[0], g[1], g[2], g[3], g[4])
	}
	return
}

// elimIter replaces the iteration symbol by its exact value where the
// constraints determine it.
func (a *An) elimIter(s *State, t Sym) *Lin {
	if a.fold != nil {
		a.fold(a, s)
	}
	var q *Lin
	for _, k := range s.ctx.cons {
		c := k.e.coef(t)
		if c.Sign() == 0 {
			continue
		}
		e := k.e.subst(t, linC(0))
		if c.Sign() > 0 {
			e = e.neg()
		}
		m := new(big.Int).Abs(c)
		cand, _ := linDivMod(e, m)
		for _, d := range []int64{0, -1, 1} {
			if s.ctx.eq0(t.lin().sub(cand.addC(d))) {
				q = cand.addC(d)
				break
			}
		}
		if q != nil {
			break
		}
	}
	if q == nil {
		return nil
	}
	f := func(l *Lin) *Lin { return l.subst(t, q) }
	a.substState(s, f)
	n := emptyCtx
	for _, k := range s.ctx.cons {
		e := f(k.e)
		if e.isConst() {
			continue
		}
		n = n.with(Constraint{e, k.eq})
	}
	s.ctx = n
	return q
}

// pin replaces the symbols of e that the constraints fix by their value.
func (a *An) pin(s *State, e *Lin) {
	for _, lt := range e.ts {
		si := syms[lt.s]
		for _, v := range []*big.Int{si.lo, si.hi} {
			if v == nil || !s.ctx.eq0(lt.s.lin().sub(linBig(v))) {
				continue
			}
			c := linBig(v)
			a.substState(s, func(l *Lin) *Lin { return l.subst(lt.s, c) })
			break
		}
	}
}

func (a *An) substState(s *State, f func(*Lin) *Lin) {
	for i, v := range s.fr.regs {
		if v != nil {
			s.fr.regs[i] = a.mapVal(v, f)
		}
	}
	for id, o := range s.mem {
		if o.meta.kind == "const" {
			continue
		}
		s.mem[id] = &Obj{o.meta, f(o.size), coalesce(s.ctx, a.mapSegs(o.segs, f))}
	}
}

func (a *An) note(c Code, b int, msg string) {
	if a.trace {
		fmt.Fprintf(os.Stderr, "loop %s: %s\n", c.PosOf(b, 0), msg)
	}
}

func feas(ss []*State) []*State {
	var out []*State
	for _, s := range ss {
		if s.feasible() {
			out = append(out, s)
		}
	}
	return out
}

// antiUnify builds a state that equals s0 for t=0 and s1 for t=1 where possible.
func (a *An) antiUnify(s0, s1 *State, t Sym) *State {
	g := s0.clone()
	g.pred = s0.pred.or(s1.pred)
	for i := range g.fr.regs {
		u, v := s0.fr.regs[i], s1.fr.regs[i]
		if u == nil || v == nil {
			g.fr.regs[i] = nil
			continue
		}
		g.fr.regs[i] = a.genVal(s0.ctx, u, v, t)
	}
	for id, o := range s1.mem {
		p, ok := s0.mem[id]
		if !ok {
			if b, isBase := a.base[id]; isBase {
				p = b
			} else {
				continue
			}
		}
		if o == p {
			continue
		}
		g.mem[id] = &Obj{p.meta, p.size, a.genSegs(s0.ctx, p.segs, o.segs, p.size, t)}
	}
	return g
}

func genLin(ctx *Ctx, x, y *Lin, t Sym) (*Lin, bool) {
	if x.eq(y) {
		return x, true
	}
	d := y.sub(x)
	if d.isConst() {
		return x.addMul(t.lin(), d.k), true
	}
	return nil, false
}

func (a *An) genTerm(ctx *Ctx, x, y *Term, t Sym) (*Term, bool) {
	if x == y {
		return x, true
	}
	if (x.kind == kBits || x == tC(0) || x == tC(1)) && y.kind == kBits && len(y.bits) <= 8 {
		bs := make([]B, len(y.bits))
		for i := range bs {
			b, ok := genBool(ctx, bitOf(x, i), y.bits[i], t)
			if !ok {
				return nil, false
			}
			bs[i] = b
		}
		return mkBits(bs), true
	}
	if x.kind == kAtom && y.kind == kAtom {
		if x.hj >= 0 && y.hj == x.hj {
			if l, ok := genLin(ctx, x.off, y.off, t); ok {
				return hAtom(x.hj, l), true
			}
		}
		if x.stream != nil && x.stream == y.stream && x.sup == y.sup && x.hj < 0 && y.hj < 0 {
			if l, ok := genLin(ctx, x.off, y.off, t); ok && x.sup == 0xffffffff {
				return x.stream.word(l), true
			}
		}
	}
	return nil, false
}

func (a *An) genVal(ctx *Ctx, x, y Value, t Sym) Value {
	if a.valEq(nil, x, y) {
		return x
	}
	switch x := x.(type) {
	case Num:
		y, ok := y.(Num)
		if ok && x.w == y.w {
			if x.lin != nil && y.lin != nil {
				if l, ok := genLin(ctx, x.lin, y.lin, t); ok {
					return numL(x.w, l)
				}
			}
			if r, ok := a.genTerm(ctx, x.term(), y.term(), t); ok {
				return num(x.w, r)
			}
			if a.trace {
				a.noteWiden("cannot generalise " + x.term().short() + " and " + y.term().short() + fmt.Sprint(y.term().hpos))
			}
			return num(x.w, freshAtom("loop", x.w))
		}
	case Bool:
		y, ok := y.(Bool)
		if ok {
			if b, ok := genBool(ctx, x.b, y.b, t); ok {
				return Bool{b}
			}
			return Bool{freshBool("loop")}
		}
	case Ptr:
		y, ok := y.(Ptr)
		if ok && x.obj == y.obj && x.obj != 0 {
			if l, ok := genLin(ctx, x.off, y.off, t); ok {
				return Ptr{x.obj, l}
			}
		}
	case SliceV:
		y, ok := y.(SliceV)
		if ok && x.p.obj == y.p.obj {
			o, ok1 := genLin(ctx, x.p.off, y.p.off, t)
			l, ok2 := genLin(ctx, x.len, y.len, t)
			c, ok3 := genLin(ctx, x.cap, y.cap, t)
			if ok1 && ok2 && ok3 {
				return SliceV{Ptr{x.p.obj, o}, l, c}
			}
		}
	case Agg:
		y, ok := y.(Agg)
		if ok && x.size == y.size {
			return Agg{x.size, a.genSegs(ctx, x.segs, y.segs, linC(x.size), t)}
		}
	case Vec:
		y, ok := y.(Vec)
		if ok {
			var v Vec
			for i := range v {
				if r, ok := a.genTerm(ctx, x[i], y[i], t); ok {
					v[i] = r
				} else {
					v[i] = freshAtom("loop", 32)
				}
			}
			return v
		}
	}
	return TopV{"changes in loop"}
}

func genBool(ctx *Ctx, x, y B, t Sym) (B, bool) {
	if x == y {
		return x, true
	}
	vx, px, ok1 := bm.literal(x)
	vy, py, ok2 := bm.literal(y)
	if x <= 1 && ok2 && bm.atoms[vy].kind == "col" && (x == F) == py {
		// no block processed yet
		at := &bm.atoms[vy]
		from := at.from
		if from == nil {
			from = linC(0)
		}
		if l, ok := genLin(ctx, from, at.pos, t); ok {
			b := colRange(at.from, l)
			if !py {
				b = b.not()
			}
			return b, true
		}
	}
	if ok1 && ok2 && px == py && bm.atoms[vx].kind == "col" && bm.atoms[vy].kind == "col" {
		fx, fy := bm.atoms[vx].from, bm.atoms[vy].from
		if l, ok := genLin(ctx, bm.atoms[vx].pos, bm.atoms[vy].pos, t); ok && (fx == nil) == (fy == nil) && (fx == nil || fx.eq(fy)) {
			b := colRange(fx, l)
			if !px {
				b = b.not()
			}
			return b, true
		}
	}
	// the verdict of a growing range, or something that does not change
	for _, v := range bm.support(y) {
		at := &bm.atoms[v]
		if at.kind != "col" || at.from == nil || ok2 {
			continue
		}
		rest := bm.subst(y, func(x int) (B, bool) { return F, x == v })
		if y != rest.or(bm.lit(v)) {
			continue
		}
		from := at.from
		if x == rest {
			if l, ok := genLin(ctx, from, at.pos, t); ok {
				return rest.or(colRange(from, l)), true
			}
			continue
		}
		for _, w := range bm.support(x) {
			au := &bm.atoms[w]
			if au.kind != "col" || au.from == nil || !au.from.eq(from) || x != rest.or(bm.lit(w)) {
				continue
			}
			if l, ok := genLin(ctx, au.pos, at.pos, t); ok {
				return rest.or(colRange(from, l)), true
			}
		}
	}
	return F, false
}

func (a *An) genCont(ctx *Ctx, x, y Content, t Sym) Content {
	if lx, ok := x.(cLazy); ok {
		if ly, ok := y.(cLazy); ok && lx.z == ly.z {
			return x
		}
		return cTop{"changes in loop"}
	}
	if _, ok := y.(cLazy); ok {
		return cTop{"changes in loop"}
	}
	if a.contEq(nil, x, y) {
		return x
	}
	switch cx := x.(type) {
	case cSrc:
		if cy, ok := y.(cSrc); ok && cx.s == cy.s {
			if l, ok := genLin(ctx, cx.off, cy.off, t); ok {
				return cSrc{cx.s, l}
			}
		}
	case cCell:
		if cy, ok := y.(cCell); ok {
			v := a.genVal(ctx, cx.v, cy.v, t)
			if tv, ok := v.(TopV); ok {
				return cTop{tv.why}
			}
			return cCell{v}
		}
	}
	return cTop{"changes in loop"}
}

// genSegs generalises two segment lists between common boundaries.
func (a *An) genSegs(ctx *Ctx, x, y []Seg, size *Lin, t Sym) []Seg {
	var out []Seg
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		// regions start at a common boundary
		if len(x)-i == len(y)-j && i < len(x) {
			// same shape: try one-to-one with moving boundaries
			ok := true
			var try []Seg
			for k := 0; i+k < len(x); k++ {
				lo, ok1 := genLin(ctx, x[i+k].lo, y[j+k].lo, t)
				hi, ok2 := genLin(ctx, x[i+k].hi, y[j+k].hi, t)
				if !ok1 || !ok2 || !sameKind(x[i+k].c, y[j+k].c) {
					ok = false
					break
				}
				// a source segment whose start moves must shift its offset accordingly
				try = append(try, Seg{lo, hi, a.genCont(ctx, x[i+k].c, y[j+k].c, t)})
			}
			if ok {
				return append(out, try...)
			}
		}
		if x[i].hi.eq(y[j].hi) {
			out = append(out, Seg{x[i].lo, x[i].hi, a.genCont(ctx, x[i].c, y[j].c, t)})
			i++
			j++
			continue
		}
		// find next common boundary
		lo := x[i].lo
		fi, fj := -1, -1
	search:
		for p := i; p < len(x); p++ {
			for q := j; q < len(y); q++ {
				if x[p].hi.eq(y[q].hi) {
					fi, fj = p, q
					break search
				}
			}
		}
		if fi < 0 {
			return append(out, Seg{lo, size, cTop{"changes in loop"}})
		}
		out = append(out, Seg{lo, x[fi].hi, cTop{"changes in loop"}})
		i, j = fi+1, fj+1
	}
	return coalesce(ctx, out)
}

func sameKind(x, y Content) bool {
	switch x.(type) {
	case cZero:
		_, ok := y.(cZero)
		return ok
	case cUndef:
		_, ok := y.(cUndef)
		return ok
	case cTop:
		_, ok := y.(cTop)
		return ok
	case cSrc:
		_, ok := y.(cSrc)
		return ok
	case cCell:
		_, ok := y.(cCell)
		return ok
	}
	return false
}

// weaken replaces parts of g that are not reproduced by s (the state after one
// more iteration); it reports whether g changed.
func (a *An) weaken(g, s *State, t Sym) bool {
	changed := false
	up := func(l *Lin) *Lin { return l.subst(t, t.lin().addC(1)) }
	if !s.pred.implies(g.pred) {
		g.pred = g.pred.or(s.pred)
		changed = true
	}
	for i := range g.fr.regs {
		u, v := g.fr.regs[i], s.fr.regs[i]
		if u == nil {
			continue
		}
		if v == nil {
			g.fr.regs[i] = nil
			continue
		}
		if isTop(u) || a.matches(s.ctx, a.mapVal(u, up), v) {
			continue
		}
		g.fr.regs[i] = a.widen(u)
		changed = true
		a.noteWiden(fmt.Sprintf("reg %d: %s vs %s", i, vstr(a.mapVal(u, up)), vstr(v)))
	}
	for id, o := range g.mem {
		p, ok := s.mem[id]
		if !ok || p == o {
			if ok && p == o {
				// unchanged object; fine unless it mentions t
				if !a.segsEq(s.ctx, a.mapSegs(o.segs, up), p.segs) {
					g.mem[id] = &Obj{o.meta, o.size, []Seg{{linC(0), o.size, cTop{"changes in loop"}}}}
					changed = true
				}
			}
			continue
		}
		ns, ch := a.weakenSegs(s.ctx, o.segs, p.segs, o.size, up)
		if ch {
			g.mem[id] = &Obj{o.meta, o.size, ns}
			changed = true
			a.noteWiden(fmt.Sprintf("obj %d %s:\n   have %s\n   next %s", id, o.meta.name, segStr(a.mapSegs(o.segs, up)), segStr(p.segs)))
		}
	}
	for id, p := range s.mem {
		if _, ok := g.mem[id]; !ok {
			if b, isBase := a.base[id]; isBase && !a.segsEq(nil, b.segs, p.segs) {
				g.mem[id] = &Obj{b.meta, b.size, []Seg{{linC(0), b.size, cTop{"changes in loop"}}}}
				changed = true
			}
		}
	}
	return changed
}

func (a *An) noteWiden(s string) {
	if a.trace {
		fmt.Fprintln(os.Stderr, "  widen", s)
	}
}

func isTop(v Value) bool {
	switch v := v.(type) {
	case TopV:
		return true
	case Num:
		return v.t != nil && v.t.kind == kAtom && strings.HasPrefix(v.t.name, "loop!")
	case Bool:
		if x, p, ok := bm.literal(v.b); ok && p && strings.HasPrefix(bm.atoms[x].name, "loop!") {
			return true
		}
	}
	return false
}

func (a *An) widen(v Value) Value {
	switch v := v.(type) {
	case Num:
		return num(v.w, freshAtom("loop", v.w))
	case Bool:
		return Bool{freshBool("loop")}
	case Vec:
		return Vec{freshAtom("loop", 32), freshAtom("loop", 32), freshAtom("loop", 32), freshAtom("loop", 32)}
	}
	return TopV{"changes in loop"}
}

// matches reports whether v is an instance of pattern u (with top parts).
func (a *An) matches(ctx *Ctx, u, v Value) bool {
	if isTop(u) || a.valEq(ctx, u, v) {
		return true
	}
	switch u := u.(type) {
	case Agg:
		if v, ok := v.(Agg); ok && u.size == v.size {
			_, ch := a.weakenSegs(ctx, u.segs, v.segs, linC(u.size), func(l *Lin) *Lin { return l })
			return !ch
		}
	case Vec:
		if v, ok := v.(Vec); ok {
			for i := range u {
				if u[i] != v[i] && !strings.HasPrefix(u[i].name, "loop!") {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (a *An) weakenSegs(ctx *Ctx, x, y []Seg, size *Lin, up func(*Lin) *Lin) ([]Seg, bool) {
	ux := a.mapSegs(x, up)
	// whole-top object
	if len(x) == 1 {
		if _, ok := x[0].c.(cTop); ok {
			return x, false
		}
	}
	var out []Seg
	changed := false
	j := 0
	for i := 0; i < len(x); i++ {
		if j >= len(y) {
			return []Seg{{linC(0), size, cTop{"changes in loop"}}}, true
		}
		if linEq(ctx, ux[i].lo, y[j].lo) && linEq(ctx, ux[i].hi, y[j].hi) {
			if _, ok := x[i].c.(cTop); ok || a.contMatch(ctx, ux[i].c, y[j].c) {
				out = append(out, x[i])
			} else {
				changed = true
				if c, ok := x[i].c.(cCell); ok {
					w := a.widen(c.v)
					if _, top := w.(TopV); top {
						out = append(out, Seg{x[i].lo, x[i].hi, cTop{"changes in loop"}})
					} else {
						out = append(out, Seg{x[i].lo, x[i].hi, cCell{w}})
					}
				} else {
					out = append(out, Seg{x[i].lo, x[i].hi, cTop{"changes in loop"}})
				}
			}
			j++
			continue
		}
		if _, ok := x[i].c.(cTop); ok && linEq(ctx, ux[i].lo, y[j].lo) {
			// top region covers several segments of y
			k := j
			for k < len(y) && !linEq(ctx, ux[i].hi, y[k].hi) {
				k++
			}
			if k < len(y) {
				out = append(out, x[i])
				j = k + 1
				continue
			}
		}
		// no match: find the next common boundary and make the region top
		fi, fj := -1, -1
	search:
		for p := i; p < len(x); p++ {
			for q := j; q < len(y); q++ {
				if linEq(ctx, ux[p].hi, y[q].hi) && linEq(nil, ux[p].hi, x[p].hi) {
					fi, fj = p, q
					break search
				}
			}
		}
		if fi < 0 || !linEq(nil, ux[i].lo, x[i].lo) {
			return []Seg{{linC(0), size, cTop{"changes in loop"}}}, true
		}
		out = append(out, Seg{x[i].lo, x[fi].hi, cTop{"changes in loop"}})
		changed = true
		i, j = fi, fj+1
	}
	return out, changed
}

func (a *An) contMatch(ctx *Ctx, u, v Content) bool {
	if a.contEq(ctx, u, v) {
		return true
	}
	cu, ok1 := u.(cCell)
	cv, ok2 := v.(cCell)
	return ok1 && ok2 && a.matches(ctx, cu.v, cv.v)
}

// ---- substitution of linear expressions inside values

func (a *An) mapTerm(t *Term, f func(*Lin) *Lin) *Term {
	if t.kind == kAtom {
		if t.hj >= 0 {
			return hAtom(t.hj, f(t.off))
		}
		if t.stream != nil && t.sup == 0xffffffff {
			return t.stream.word(f(t.off))
		}
	}
	if t.kind == kBits && len(t.bits) <= 8 {
		bs := make([]B, len(t.bits))
		ch := false
		for i, b := range t.bits {
			bs[i] = mapB(b, f)
			ch = ch || bs[i] != b
		}
		if ch {
			return mkBits(bs)
		}
	}
	return t
}

func (a *An) mapVal(v Value, f func(*Lin) *Lin) Value {
	switch v := v.(type) {
	case Num:
		if v.lin != nil {
			return numL(v.w, f(v.lin))
		}
		return num(v.w, a.mapTerm(v.t, f))
	case Bool:
		if b := mapB(v.b, f); b != v.b {
			return Bool{b}
		}
	case Ptr:
		if v.nil() {
			return v
		}
		return Ptr{v.obj, f(v.off)}
	case SliceV:
		p := v.p
		if !p.nil() {
			p.off = f(p.off)
		}
		return SliceV{p, f(v.len), f(v.cap)}
	case StrV:
		p := v.p
		if !p.nil() {
			p.off = f(p.off)
		}
		return StrV{p, f(v.len)}
	case Agg:
		return Agg{v.size, a.mapSegs(v.segs, f)}
	case Vec:
		var w Vec
		for i := range v {
			w[i] = a.mapTerm(v[i], f)
		}
		return w
	case Tuple:
		w := make(Tuple, len(v))
		for i := range v {
			w[i] = a.mapVal(v[i], f)
		}
		return w
	}
	return v
}

func (a *An) mapSegs(ss []Seg, f func(*Lin) *Lin) []Seg {
	out := make([]Seg, len(ss))
	for i, s := range ss {
		c := forced(s.c)
		switch x := c.(type) {
		case cSrc:
			c = cSrc{x.s, f(x.off)}
		case cCell:
			c = cCell{a.mapVal(x.v, f)}
		}
		out[i] = Seg{f(s.lo), f(s.hi), c}
	}
	return out
}

// ---- chaining-value atoms

var posIDs = map[string]int{}
var posLins []*Lin

func posID(l *Lin) int {
	k := l.key()
	if id, ok := posIDs[k]; ok {
		return id
	}
	posIDs[k] = len(posLins)
	posLins = append(posLins, l)
	return len(posLins) - 1
}

// hAtom is word j of the chaining value after the first pos bytes of the message.
func hAtom(j int, pos *Lin) *Term {
	return mkAtom(fmt.Sprintf("H%d@%s", j, pos.key()), 0xffffffff, func(t *Term) {
		t.hj = j
		t.off = pos
		t.hpos = []int{posID(pos)}
	})
}

// colAtom: a collision was found in the first pos bytes.
func colAtom(pos *Lin) B { return colRange(nil, pos) }

// colRange: a collision was found in a block of bytes [from, pos).
func colRange(from, pos *Lin) B {
	if from != nil {
		if c, ok := from.int(); ok && c == 0 {
			from = nil
		}
	}
	k := "col@" + pos.key()
	if from != nil {
		if c, ok := pos.sub(from).int(); ok && c == 0 {
			return F
		}
		k += " from " + from.key()
	} else if c, ok := pos.int(); ok && c == 0 {
		return F
	}
	if v, ok := atomTab[k]; ok {
		return bm.lit(v)
	}
	v := bm.newAtom(batom{kind: "col", name: k, pos: pos, from: from, hpos: []int{posID(pos)}}, -1)
	atomTab[k] = v
	return bm.lit(v)
}

// mapB maps the positions in a verdict.
func mapB(b B, f func(*Lin) *Lin) B {
	if b <= 1 {
		return b
	}
	if v, p, ok := bm.literal(b); ok {
		if bm.atoms[v].kind != "col" {
			return b
		}
		n := mapCol(v, f)
		if !p {
			n = n.not()
		}
		return n
	}
	ranges := false
	for _, v := range bm.support(b) {
		if at := &bm.atoms[v]; at.kind == "col" && at.from != nil {
			ranges = true
		}
	}
	if !ranges {
		return b
	}
	return bm.subst(b, func(v int) (B, bool) {
		if bm.atoms[v].kind == "col" {
			return mapCol(v, f), true
		}
		return F, false
	})
}

func mapCol(v int, f func(*Lin) *Lin) B {
	from := bm.atoms[v].from
	if from != nil {
		from = f(from)
	}
	return colRange(from, f(bm.atoms[v].pos))
}

package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Heap allocations: the compiler's escape analysis lists the allocation sites;
// those in functions reachable from Write, Sum and CollisionResistantSum that
// lie on a path which can return are violations, unless abstract
// interpretation shows the site unreachable. Growth in append is decided by
// the write and sum scenarios.

type allocSite struct {
	file      string
	line, col int
	msg       string
}

var (
	escRe = regexp.MustCompile(`^(\S+?\.go):(\d+):(\d+): (.*)$`)
)

func escapes(cfg Config) (sites []allocSite, inl map[string]bool, err error) {
	args := []string{"build", "-gcflags=-m"}
	if cfg.tags != "" {
		args = append(args, "-tags="+cfg.tags)
	}
	args = append(args, "./...")
	cmd := exec.Command(goRoot+"/bin/go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv(cfg)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, nil, fmt.Errorf("go build: %v %s", err, clip(string(out), 400))
	}
	inl = map[string]bool{}
	n := 0
	for _, l := range strings.Split(string(out), "\n") {
		m := escRe.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		n++
		f := m[1]
		if !filepath.IsAbs(f) {
			f = filepath.Join(repoDir, f)
		}
		ln, _ := strconv.Atoi(m[2])
		col, _ := strconv.Atoi(m[3])
		switch {
		case strings.HasPrefix(m[4], "inlining call to "):
			inl[fmt.Sprintf("%s:%d:%d", f, ln, col)] = true
		case m[4] == "append escapes to heap":
		case strings.HasPrefix(m[4], "moved to heap:"), strings.HasSuffix(m[4], "escapes to heap"):
			sites = append(sites, allocSite{f, ln, col, m[4]})
		}
	}
	if n == 0 {
		return nil, nil, fmt.Errorf("no output of the compiler's escape analysis")
	}
	return sites, inl, nil
}

// doomed blocks have no path to a return.
func doomedBlocks(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	ok := map[*ssa.BasicBlock]bool{}
	var mark func(b *ssa.BasicBlock)
	mark = func(b *ssa.BasicBlock) {
		if ok[b] {
			return
		}
		ok[b] = true
		for _, p := range b.Preds {
			mark(p)
		}
	}
	for _, b := range fn.Blocks {
		if _, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
			mark(b)
		}
	}
	bad := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if !ok[b] {
			bad[b] = true
		}
	}
	return bad
}

func taskAlloc(rp *Report, cfg string) {
	rp.rule("no allocation site found by the compiler's escape analysis is reachable from Write, Sum or CollisionResistantSum on a path that returns")
	f, h := openGo(rp, cfg)
	if h == nil {
		return
	}
	sites, inl, err := escapes(f.cfg)
	if err != nil {
		rp.und("escape", err.Error(), "C24")
		return
	}
	rp.Counts["escape analysis sites"] += len(sites)
	fset := f.prog.Fset
	// functions called without being inlined
	reach := map[*ssa.Function]bool{}
	// bodies of inlined functions: their sites are listed at the call
	inlined := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	for _, m := range []string{"Write", "Sum", "CollisionResistantSum"} {
		if fn := h.method(m); fn != nil {
			todo = append(todo, fn)
		}
	}
	var todoInl []*ssa.Function
	type dynSite struct {
		fn  *ssa.Function
		b   *ssa.BasicBlock
		pos token.Pos
		msg string
	}
	var dyn []dynSite
	once := onceBodies(f)
	for len(todo)+len(todoInl) > 0 {
		var fn *ssa.Function
		if n := len(todo); n > 0 {
			fn = todo[n-1]
			todo = todo[:n-1]
			if fn == nil || reach[fn] {
				continue
			}
			reach[fn] = true
		} else {
			n := len(todoInl)
			fn = todoInl[n-1]
			todoInl = todoInl[:n-1]
			if fn == nil || reach[fn] || inlined[fn] {
				continue
			}
			inlined[fn] = true
		}
		if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) || once[fn] {
			continue
		}
		rp.Funcs[strings.ReplaceAll(fn.RelString(nil), modPath, "sha1cd")]++
		doom := doomedBlocks(fn)
		for _, b := range fn.Blocks {
			if doom[b] {
				continue
			}
			for _, in := range b.Instrs {
				rp.Counts["instruction obligations"]++
				if g, ok := in.(*ssa.Go); ok {
					rp.add("alloc", "a goroutine is started in "+fn.RelString(nil), f.posStr(g.Pos()), "C24")
				}
				// the compiler lists these as not escaping, but memory of a size
				// known only at run time is allocated
				if mk, ok := in.(*ssa.MakeSlice); ok {
					if _, isC := mk.Cap.(*ssa.Const); !isC {
						dyn = append(dyn, dynSite{fn, b, mk.Pos(), "make of a slice whose size is not constant"})
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					if k, isC := c.Common().Args[0].(*ssa.Const); isC && k.IsNil() {
						dyn = append(dyn, dynSite{fn, b, in.Pos(), "append to a nil slice"})
					}
				}
				callee := c.Common().StaticCallee()
				if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
					callee = mc.Fn.(*ssa.Function)
				}
				if callee == nil {
					continue
				}
				// calls of an inlined function are listed at the parenthesis or the selector
				if call, ok := c.(*ssa.Call); ok && inlinedAt(inl, fset, fn, call) {
					todoInl = append(todoInl, callee)
					continue
				}
				switch callee.RelString(nil) {
				case "(*sync.Once).Do":
					continue
				case "(*sync.Pool).Get", "(*sync.Pool).Put":
					rp.und("alloc", fn.RelString(nil)+" uses a sync.Pool, which allocates when it is empty", "C24")
					continue
				}
				if callee.Pkg != nil && !inModule(callee.Pkg.Pkg) && !pureStd[callee.Pkg.Pkg.Path()] {
					if !allocates(callee) {
						continue
					}
					rp.add("alloc", fmt.Sprintf("%s calls %s, which may allocate", fn.RelString(nil), callee.RelString(nil)), f.posStr(in.Pos()), "C24")
				}
				todo = append(todo, callee)
			}
			// functions mentioned as values
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if c, isCall := in.(ssa.CallInstruction); isCall && c.Common().Value == g {
							continue
						}
						todo = append(todo, g)
					}
				}
			}
		}
	}
	var cand []func(visited map[Code]map[int]bool)
	for _, s := range sites {
		var fn *ssa.Function
		for g := range reach {
			if g.Syntax() == nil {
				continue
			}
			p, e := fset.Position(g.Syntax().Pos()), fset.Position(g.Syntax().End())
			if p.Filename == s.file && p.Line <= s.line && s.line <= e.Line && (p.Line != s.line || p.Column <= s.col) {
				// the innermost function
				if fn == nil || g.Syntax().Pos() > fn.Syntax().Pos() {
					fn = g
				}
			}
		}
		if fn == nil || once[fn] {
			continue
		}
		s := s
		rp.Counts["reachable escape sites"]++
		if inPanic(fset, fn.Syntax(), s) {
			continue
		}
		doom := doomedBlocks(fn)
		var blocks []*ssa.BasicBlock
		live := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if q := fset.Position(in.Pos()); q.Filename == s.file && q.Line == s.line {
					blocks = append(blocks, b)
					if !doom[b] {
						live = true
					}
					break
				}
			}
		}
		if len(blocks) > 0 && !live {
			continue
		}
		cand = append(cand, func(visited map[Code]map[int]bool) {
			if visited != nil && len(blocks) > 0 {
				reached := false
				for c, bs := range visited {
					gc, ok := c.(*goCode)
					if !ok || gc.f != fn {
						continue
					}
					for _, b := range blocks {
						if bs[b.Index] {
							reached = true
						}
					}
				}
				if !reached {
					return
				}
			}
			rp.add("alloc", fmt.Sprintf("%s, in %s, reached from Write or Sum", s.msg, fn.RelString(nil)), fmt.Sprintf("%s:%d", strings.TrimPrefix(s.file, repoDir+"/"), s.line), "C24")
		})
	}
	for _, d := range dyn {
		d := d
		rp.Counts["allocations of variable size"]++
		cand = append(cand, func(visited map[Code]map[int]bool) {
			for c, bs := range visited {
				if gc, ok := c.(*goCode); ok && gc.f == d.fn && bs[d.b.Index] {
					visited = nil
					break
				}
			}
			if visited == nil {
				rp.add("alloc", fmt.Sprintf("%s in %s, reached from Write or Sum", d.msg, d.fn.RelString(nil)), f.posStr(d.pos), "C24")
			}
		})
	}
	if len(cand) == 0 {
		return
	}
	// which blocks do the scenarios reach?
	visited := map[Code]map[int]bool{}
	visitAll = visited
	tmp := newReport("visit")
	err = h.scWrite(tmp, symR(), false)
	for _, m := range []string{"Sum", "CollisionResistantSum"} {
		for _, r := range []int64{0, 60} {
			if e := h.scSum(tmp, r, m, false); e != nil {
				err = e
			}
		}
	}
	visitAll = nil
	if err != nil {
		visited = nil
	}
	for _, c := range cand {
		c(visited)
	}
}

// visitAll is recorded by all runs if set.
var visitAll map[Code]map[int]bool

// inPanic reports whether the site is inside the argument of panic.
func inPanic(fset *token.FileSet, n ast.Node, s allocSite) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		c, ok := x.(*ast.CallExpr)
		if !ok {
			return true
		}
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
			p, e := fset.Position(c.Pos()), fset.Position(c.End())
			if (p.Line < s.line || p.Line == s.line && p.Column <= s.col) && (e.Line > s.line || e.Line == s.line && e.Column >= s.col) {
				found = true
			}
		}
		return true
	})
	return found
}

func inlinedAt(inl map[string]bool, fset *token.FileSet, fn *ssa.Function, call *ssa.Call) bool {
	// the compiler reports the position of the opening parenthesis; go/ssa has it as the call's position
	q := fset.Position(call.Pos())
	return inl[fmt.Sprintf("%s:%d:%d", q.Filename, q.Line, q.Column)]
}

// packages whose functions do not allocate
var pureStd = map[string]bool{"math/bits": true, "internal/byteorder": true, "sync/atomic": true, "unsafe": true, "internal/cpu": true, "runtime": true, "math": true}

// allocates tells whether a function outside the module has an instruction
// that allocates, on a path that returns, directly or in its callees.
func allocates(fn *ssa.Function) bool { return allocRec(fn, map[*ssa.Function]bool{}, 0) }

func allocRec(fn *ssa.Function, seen map[*ssa.Function]bool, d int) bool {
	if seen[fn] || fn.Pkg != nil && pureStd[fn.Pkg.Pkg.Path()] {
		return false
	}
	seen[fn] = true
	if d > 12 {
		return true
	}
	doom := doomedBlocks(fn)
	for _, b := range fn.Blocks {
		if doom[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				if x.Heap {
					return true
				}
			case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.Go:
				return true
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok {
					if b.Name() == "append" {
						return true
					}
					continue
				}
				if g := x.Common().StaticCallee(); g != nil {
					if allocRec(g, seen, d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

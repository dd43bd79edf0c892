package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects: writes to package-level memory after initialisation, found over the
// whole program reachable from the API, and references to it that the API
// hands out.

// apiRoots are the functions users can call.
func apiRoots(f *goFront) []*ssa.Function {
	var out []*ssa.Function
	for fn := range allFuncs(f) {
		if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		if fn.Signature.Recv() != nil || ast.IsExported(fn.Name()) {
			if !strings.HasPrefix(fn.Name(), "_C") {
				out = append(out, fn)
			}
		}
	}
	return out
}

// reachableFns follows static calls, closures and mentioned functions.
func reachableFns(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	todo := append([]*ssa.Function{}, roots...)
	for len(todo) > 0 {
		fn := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if fn == nil || seen[fn] {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						todo = append(todo, g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					todo = append(todo, mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	return seen
}

// rootsOf finds what an address is derived from.
func rootsOf(v ssa.Value, seen map[ssa.Value]bool) (out []ssa.Value) {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return rootsOf(x.X, seen)
	case *ssa.IndexAddr:
		return rootsOf(x.X, seen)
	case *ssa.Slice:
		return rootsOf(x.X, seen)
	case *ssa.Convert:
		return rootsOf(x.X, seen)
	case *ssa.ChangeType:
		return rootsOf(x.X, seen)
	case *ssa.MultiConvert:
		return rootsOf(x.X, seen)
	case *ssa.SliceToArrayPointer:
		return rootsOf(x.X, seen)
	case *ssa.MakeInterface:
		return rootsOf(x.X, seen)
	case *ssa.ChangeInterface:
		return rootsOf(x.X, seen)
	case *ssa.TypeAssert:
		return rootsOf(x.X, seen)
	case *ssa.Field:
		return rootsOf(x.X, seen)
	case *ssa.Extract:
		return rootsOf(x.Tuple, seen)
	case *ssa.UnOp:
		// a pointer loaded from a package variable
		return rootsOf(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, rootsOf(e, seen)...)
		}
		return
	}
	return []ssa.Value{v}
}

type effects struct {
	f     *goFront
	memo  map[*ssa.Function]map[int]string // written parameters
	doing map[*ssa.Function]bool
}

// writes lists the instruction's written addresses.
func (e *effects) writes(in ssa.Instruction) (addrs []ssa.Value) {
	switch x := in.(type) {
	case *ssa.Store:
		addrs = append(addrs, x.Addr)
	case *ssa.MapUpdate:
		addrs = append(addrs, x.Map)
	case *ssa.Send:
		addrs = append(addrs, x.Chan)
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy", "clear", "delete", "append", "close":
				if b.Name() == "append" {
					// writes beyond the length of its argument
				}
				addrs = append(addrs, c.Args[0])
			}
			return
		}
		if fn := c.StaticCallee(); fn != nil {
			if syncPkg(fn) {
				return nil
			}
			w := e.params(fn)
			for i := range w {
				if i < len(c.Args) {
					addrs = append(addrs, c.Args[i])
				}
			}
		}
	}
	return
}

// params finds the parameters whose memory fn may write.
func (e *effects) params(fn *ssa.Function) map[int]string {
	if m, ok := e.memo[fn]; ok {
		return m
	}
	if e.doing[fn] {
		return nil
	}
	e.doing[fn] = true
	defer delete(e.doing, fn)
	m := map[int]string{}
	idx := map[ssa.Value]int{}
	for i, p := range fn.Params {
		idx[p] = i
	}
	if len(e.doing) < 40 {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, a := range e.writes(in) {
					for _, r := range rootsOf(a, map[ssa.Value]bool{}) {
						if i, ok := idx[r]; ok {
							m[i] = e.f.posStr(in.Pos())
						}
					}
				}
			}
		}
	}
	e.memo[fn] = m
	return m
}

// syncPkg: functions that synchronise what they do to their arguments.
func syncPkg(fn *ssa.Function) bool {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	return p == "sync" || p == "sync/atomic"
}

// onceBodies are the functions run at most once before their results are used.
func onceBodies(f *goFront) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for fn := range allFuncs(f) {
		if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || !syncPkg(g) || !strings.HasPrefix(g.Name(), "Once") && g.RelString(nil) != "(*sync.Once).Do" {
					continue
				}
				for _, x := range c.Common().Args {
					switch x := x.(type) {
					case *ssa.Function:
						out[x] = true
					case *ssa.MakeClosure:
						out[x.Fn.(*ssa.Function)] = true
					}
				}
			}
		}
	}
	for {
		n := len(out)
		for fn := range reachableFns(keys(out)) {
			// helpers called from nowhere else
			if fn.Pkg != nil && inModule(fn.Pkg.Pkg) && fn.Parent() != nil && out[fn.Parent()] {
				out[fn] = true
			}
		}
		if len(out) == n {
			return out
		}
	}
}

func keys(m map[*ssa.Function]bool) (out []*ssa.Function) {
	for k := range m {
		out = append(out, k)
	}
	return
}

// locks: the function takes a lock that is a package variable.
func locks(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && (g.RelString(nil) == "(*sync.Mutex).Lock" || g.RelString(nil) == "(*sync.RWMutex).Lock") {
					for _, r := range rootsOf(c.Common().Args[0], map[ssa.Value]bool{}) {
						if _, ok := r.(*ssa.Global); ok {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// mutableGlobals are the package variables the API changes with atomic
// operations or under a lock: their value at any later point is unknown.
func (f *goFront) mutableGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	e := &effects{f, map[*ssa.Function]map[int]string{}, map[*ssa.Function]bool{}}
	once := onceBodies(f)
	for fn := range reachableFns(apiRoots(f)) {
		if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) || once[fn] || fn.Name() == "init" {
			continue
		}
		lk := locks(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var addrs []ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					g := c.Common().StaticCallee()
					if g != nil && syncPkg(g) && len(c.Common().Args) > 0 {
						o := g
						if g.Origin() != nil {
							o = g.Origin()
						}
						if o.Pkg.Pkg.Path() == "sync/atomic" && !strings.HasPrefix(g.Name(), "Load") {
							addrs = append(addrs, c.Common().Args[0])
						}
					}
				}
				if lk {
					addrs = append(addrs, e.writes(in)...)
				}
				for _, x := range addrs {
					for _, r := range rootsOf(x, map[ssa.Value]bool{}) {
						if g, ok := r.(*ssa.Global); ok && inModule(g.Pkg.Pkg) {
							out[g] = true
						}
					}
				}
			}
		}
	}
	return out
}

func taskEffects(rp *Report) {
	rp.rule("no function reachable from the API stores to memory rooted in a package variable")
	rp.rule("no exported package variable is read by the API; no result of a parameterless function reaches package memory that the code uses")
	for _, cfg := range []string{"noasm", "amd64", "arm64", "arm", "cgo"} {
		f, err := loadGo(goConfigs[cfg])
		if err != nil {
			rp.und("load", err.Error(), "C16")
			continue
		}
		e := &effects{f, map[*ssa.Function]map[int]string{}, map[*ssa.Function]bool{}}
		reach := reachableFns(apiRoots(f))
		once := onceBodies(f)
		for fn := range reach {
			if once[fn] {
				continue
			}
			lk := locks(fn)
			if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) || strings.HasPrefix(fn.Name(), "_C") || strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil && fn.Name() == "init" {
				continue
			}
			rp.Funcs[strings.ReplaceAll(fn.RelString(nil), modPath, "sha1cd")]++
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, a := range e.writes(in) {
						rp.Counts["store obligations"]++
						for _, r := range rootsOf(a, map[ssa.Value]bool{}) {
							if g, ok := r.(*ssa.Global); ok && inModule(g.Pkg.Pkg) {
								if lk {
									rp.und("global-store", fmt.Sprintf("%s writes package variable %s.%s in a function that takes a lock", fn.RelString(nil), g.Pkg.Pkg.Path(), g.Name()), "C16")
									continue
								}
								rp.add("global-store", fmt.Sprintf("%s writes package variable %s.%s", fn.RelString(nil), g.Pkg.Pkg.Path(), g.Name()), f.posStr(in.Pos()), "C16")
							}
						}
					}
					if g, ok := in.(*ssa.UnOp); ok {
						if v, ok := g.X.(*ssa.Global); ok && inModule(v.Pkg.Pkg) && ast.IsExported(v.Name()) {
							rp.add("exported-var", fmt.Sprintf("%s depends on exported variable %s.%s, which callers can change", fn.RelString(nil), v.Pkg.Pkg.Path(), v.Name()), f.posStr(v.Pos()), "C16")
						}
					}
				}
			}
		}
		if _, err := f.initBase(); err != nil {
			rp.und("init", err.Error(), "C16")
			continue
		}
		if f.cfg.cgo {
			if f.cmod, err = loadC(f, repoDir+"/cgo"); err != nil {
				rp.und("c", err.Error(), "C16")
				continue
			}
			cEffects(rp, f)
		}
		if err := guard(func() { handedOut(rp, f, reach) }); err != nil {
			rp.und("results", err.Error(), "C16")
		}
	}
}

// handedOut checks that results of parameterless exported functions do not
// reach package variables that the code reads.
func handedOut(rp *Report, f *goFront, reach map[*ssa.Function]bool) {
	// package variables and what they refer to
	used := map[ObjID]string{}
	a := f.newRun()
	st := newState()
	for fn := range reach {
		if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && inModule(g.Pkg.Pkg) {
						id := a.globalObj(st, g)
						for o := range a.reach(st, nil, []ObjID{id}) {
							used[o] = g.Pkg.Pkg.Name() + "." + g.Name()
						}
					}
				}
			}
		}
	}
	for _, p := range f.prog.AllPackages() {
		if !inModule(p.Pkg) {
			continue
		}
		for _, m := range p.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !ast.IsExported(fn.Name()) || fn.Signature.Params().Len() > 0 || fn.Signature.Results().Len() == 0 {
				continue
			}
			a := f.newRun()
			rp.Counts["results obligations"]++
			for _, o := range a.harness(newState(), fn) {
				if o.kind != oRet {
					continue
				}
				for id := range a.reach(o.st, []Value{o.val}, nil) {
					n, ok := used[id]
					if !ok {
						continue
					}
					ob := a.obj(o.st, id)
					if ob.meta.ro || !mutableResult(fn) {
						continue
					}
					rp.add("handed-out", fmt.Sprintf("%s returns a reference to memory of package variable %s", fn.RelString(nil), n), f.posStr(fn.Pos()), "C16")
				}
			}
		}
	}
}

func mutableResult(fn *ssa.Function) bool {
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		switch fn.Signature.Results().At(i).Type().Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map, *types.Interface, *types.Struct, *types.Array:
			return true
		}
	}
	return false
}

// cEffects looks for stores to C globals in the functions Go can reach.
func cEffects(rp *Report, f *goFront) {
	m := f.cmod
	var todo []string
	for fn := range allFuncs(f) {
		if strings.HasPrefix(fn.Name(), "_Cfunc_") {
			todo = append(todo, strings.TrimPrefix(fn.Name(), "_Cfunc_"))
		}
	}
	// function addresses in tables
	var addrs func(v lval)
	addrs = func(v lval) {
		if v.k == 'g' && m.funcs[v.name] != nil {
			todo = append(todo, v.name)
		}
		for _, e := range v.elems {
			addrs(e)
		}
	}
	for _, g := range m.globs {
		if g.init != nil {
			addrs(*g.init)
		}
	}
	seen := map[string]bool{}
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		fn := m.funcs[n]
		if fn == nil || seen[n] {
			continue
		}
		seen[n] = true
		rp.Funcs["C."+fn.short()]++
		root := map[int]string{}
		of := func(v lval) string {
			switch v.k {
			case 'g', 'e':
				if g := m.globs[v.name]; g != nil {
					return v.name
				}
			case 'r':
				return root[v.reg]
			}
			return ""
		}
		for changed := true; changed; {
			changed = false
			for _, b := range fn.blk {
				for i := range b {
					in := &b[i]
					switch in.op {
					case "getelementptr", "bitcast", "phi", "select":
						for _, v := range in.args {
							if g := of(v); g != "" && root[in.res] == "" && in.res >= 0 {
								root[in.res] = g
								changed = true
							}
						}
					}
				}
			}
		}
		for bi, b := range fn.blk {
			for i := range b {
				in := &b[i]
				for _, v := range in.args {
					addrs(v)
				}
				g := ""
				switch in.op {
				case "store":
					g = of(in.args[1])
					rp.Counts["store obligations"]++
				case "call":
					addrs(in.fn)
					if strings.HasPrefix(in.fn.name, "llvm.mem") || in.fn.name == "memcpy" || in.fn.name == "memset" || in.fn.name == "memmove" {
						g = of(in.args[0])
						rp.Counts["store obligations"]++
					}
				}
				if g != "" {
					rp.add("global-store", fmt.Sprintf("C function %s writes the variable %s", fn.short(), g), fn.PosOf(bi, i), "C16")
				}
			}
		}
	}
}

// ---- calls that do something else than compute

// outside tells what a function of another package does besides computing;
// "" if nothing is known against it.
func outside(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return ""
	}
	p, n := fn.Pkg.Pkg.Path(), fn.Name()
	if fn.Name() == "init" {
		return ""
	}
	top := p
	if i := strings.IndexByte(p, '/'); i > 0 {
		top = p[:i]
	}
	switch {
	case p == "fmt" && (strings.HasPrefix(n, "Print") || strings.HasPrefix(n, "Fprint")):
		return "writes output"
	case p == "fmt" && (strings.HasPrefix(n, "Scan") || strings.HasPrefix(n, "Fscan")):
		return "reads input"
	case top == "log" || p == "testing" || p == "expvar":
		return "writes output"
	case top == "os" || p == "syscall" || strings.HasPrefix(p, "golang.org/x/sys/unix"):
		return "uses the operating system"
	case top == "net":
		return "uses the network"
	case p == "time" && (n == "Now" || n == "Since" || n == "Until" || n == "Sleep" || n == "After" || n == "AfterFunc" || n == "NewTimer" || n == "NewTicker" || n == "Tick"):
		return "depends on the clock"
	case strings.HasPrefix(p, "math/rand") || p == "crypto/rand":
		return "depends on random numbers"
	case p == "hash/maphash":
		return "depends on a random seed"
	case p == "runtime" && (n == "Goexit" || n == "GC" || n == "GOMAXPROCS" || n == "Breakpoint" || n == "LockOSThread" || n == "NumGoroutine" || n == "ReadMemStats" || n == "SetFinalizer"):
		return "acts on the runtime"
	case p == "runtime/debug" || p == "runtime/pprof" || p == "runtime/trace" || p == "plugin":
		return "acts on the runtime"
	}
	return ""
}

var outsideC = map[string]string{}

func init() {
	for what, names := range map[string]string{
		"writes output":             "printf fprintf vprintf vfprintf puts fputs putchar fputc putc fwrite perror dprintf write fflush syslog",
		"ends the process":          "exit _exit _Exit quick_exit kill",
		"uses the operating system": "getenv secure_getenv setenv putenv open fopen close fclose read fread mmap mprotect system popen fork execve pthread_create sleep usleep nanosleep socket connect send recv unlink remove",
		"depends on the clock":      "time clock gettimeofday clock_gettime",
		"depends on random numbers": "rand srand random srandom arc4random getrandom drand48",
	} {
		for _, n := range strings.Fields(names) {
			outsideC[n] = what
		}
	}
}

func taskCalls(rp *Report) {
	rp.rule("no function reachable from the API after initialisation calls anything that writes output, uses the operating system, the clock or random numbers, or ends the process")
	for _, cfg := range []string{"noasm", "amd64", "arm64", "arm", "cgo"} {
		f, err := loadGo(goConfigs[cfg])
		if err != nil {
			rp.und("load", err.Error(), "C27")
			continue
		}
		// functions of the module that can run, and what they call directly
		for fn := range moduleReach(apiRoots(f)) {
			rp.Funcs[strings.ReplaceAll(fn.RelString(nil), modPath, "sha1cd")]++
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						rp.Counts["call obligations"]++
						if bi, ok := c.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
							rp.add("calls", fmt.Sprintf("%s calls %s, which writes output", fn.RelString(nil), bi.Name()), f.posStr(in.Pos()), "C27")
						}
					}
					for _, op := range in.Operands(nil) {
						switch g := (*op).(type) {
						case *ssa.Function:
							if w := outside(g); w != "" {
								rp.add("calls", fmt.Sprintf("%s uses %s, which %s", fn.RelString(nil), g.RelString(nil), w), f.posStr(in.Pos()), "C27")
							}
						case *ssa.Global:
							if p := g.Pkg.Pkg.Path(); p == "os" || p == "syscall" {
								rp.add("calls", fmt.Sprintf("%s uses %s.%s", fn.RelString(nil), p, g.Name()), f.posStr(in.Pos()), "C27")
							}
						}
					}
				}
			}
		}
		if f.cfg.cgo {
			if f.cmod, err = loadC(f, repoDir+"/cgo"); err != nil {
				rp.und("c", err.Error(), "C27")
				continue
			}
			cCalls(rp, f)
		}
	}
}

// moduleReach is reachableFns within the module; methods of the module's types
// that a reachable function turns into interfaces are API roots anyway.
func moduleReach(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	todo := append([]*ssa.Function{}, roots...)
	for len(todo) > 0 {
		fn := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if fn == nil || seen[fn] || fn.Name() == "init" && fn.Signature.Recv() == nil {
			continue
		}
		pk := fn.Pkg
		if pk == nil && fn.Origin() != nil {
			pk = fn.Origin().Pkg
		}
		if pk == nil || !inModule(pk.Pkg) || strings.HasPrefix(fn.Name(), "_C") {
			continue
		}
		seen[fn] = true
		todo = append(todo, fn.AnonFuncs...)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						todo = append(todo, g)
					}
				}
			}
		}
	}
	return seen
}

func cCalls(rp *Report, f *goFront) {
	m := f.cmod
	var todo []string
	for fn := range allFuncs(f) {
		if strings.HasPrefix(fn.Name(), "_Cfunc_") {
			todo = append(todo, strings.TrimPrefix(fn.Name(), "_Cfunc_"))
		}
	}
	var addrs func(v lval)
	addrs = func(v lval) {
		if v.k == 'g' {
			todo = append(todo, v.name)
		}
		for _, e := range v.elems {
			addrs(e)
		}
	}
	for _, g := range m.globs {
		if g.init != nil {
			addrs(*g.init)
		}
	}
	seen := map[string]bool{}
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		fn := m.funcs[n]
		if fn == nil || seen[n] {
			continue
		}
		seen[n] = true
		rp.Funcs["C."+fn.short()]++
		for bi, b := range fn.blk {
			for i := range b {
				in := &b[i]
				for _, v := range in.args {
					addrs(v)
				}
				if in.op != "call" {
					continue
				}
				addrs(in.fn)
				rp.Counts["call obligations"]++
				if w := outsideC[in.fn.name]; w != "" {
					rp.add("calls", fmt.Sprintf("C function %s calls %s, which %s", fn.short(), in.fn.name, w), fn.PosOf(bi, i), "C27")
				}
			}
		}
	}
}

package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The exported API and the selection of back ends, type-checked for every
// combination of platform, compiler, cgo and build tags.

type apiConfig struct {
	os, arch, compiler string
	cgo                bool
	tags               []string
}

func (c apiConfig) String() string {
	s := c.os + "/" + c.arch + " " + c.compiler
	if c.cgo {
		s += " cgo"
	} else {
		s += " nocgo"
	}
	if len(c.tags) > 0 {
		s += " tags=" + strings.Join(c.tags, ",")
	}
	return s
}

var apiPlatforms = []string{
	"linux/386", "linux/amd64", "linux/arm", "linux/arm64", "linux/loong64", "linux/mips", "linux/mipsle", "linux/mips64", "linux/mips64le",
	"linux/ppc64", "linux/ppc64le", "linux/riscv64", "linux/s390x", "darwin/amd64", "darwin/arm64", "windows/386", "windows/amd64", "windows/arm64",
	"freebsd/amd64", "freebsd/arm64", "openbsd/amd64", "netbsd/arm", "android/arm64", "ios/arm64", "js/wasm", "wasip1/wasm", "plan9/amd64", "solaris/amd64", "aix/ppc64", "illumos/amd64", "dragonfly/amd64",
}

// moduleDirs are the directories with non-test Go files.
func moduleDirs() []string {
	seen := map[string]bool{}
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		n := fi.Name()
		if fi.IsDir() {
			if p != repoDir && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil && p != repoDir {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			seen[filepath.Dir(p)] = true
		}
		return nil
	})
	return sortedKeys(seen)
}

// customTags are the build tags the module's files mention besides platforms,
// compilers and releases.
func customTags(dirs []string) []string {
	known := map[string]bool{"cgo": true, "gc": true, "gccgo": true, "unix": true, "ignore": true, "tools": true, "race": true, "msan": true, "asan": true}
	for _, p := range apiPlatforms {
		o, a, _ := strings.Cut(p, "/")
		known[o], known[a] = true, true
	}
	for _, x := range strings.Fields("ppc sparc sparc64 riscv s390 mips64p32 amd64p32 armbe arm64be hurd nacl zos") {
		known[x] = true
	}
	tags := map[string]bool{}
	for _, d := range dirs {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			n := e.Name()
			if strings.HasSuffix(n, "_test.go") || !(strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".s") || strings.HasSuffix(n, ".c") || strings.HasSuffix(n, ".h")) {
				continue
			}
			b, _ := os.ReadFile(filepath.Join(d, n))
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "package ") {
					break
				}
				if !constraint.IsGoBuild(l) {
					continue
				}
				x, err := constraint.Parse(l)
				if err != nil {
					continue
				}
				x.Eval(func(t string) bool {
					if !known[t] && !strings.HasPrefix(t, "go1") {
						tags[t] = true
					}
					return false
				})
				// both polarities, so that short-circuit evaluation misses nothing
				x.Eval(func(t string) bool {
					if !known[t] && !strings.HasPrefix(t, "go1") {
						tags[t] = true
					}
					return true
				})
			}
		}
	}
	out := sortedKeys(tags)
	if len(out) > 3 {
		out = out[:3]
	}
	return out
}

type apiLoader struct {
	fset   *token.FileSet
	cfg    apiConfig
	ctx    build.Context
	ext    map[string]*types.Package
	done   map[string]*types.Package
	files  map[string]*ast.File
	errs   []string
	sfiles map[string][]string // package -> assembly files
	decls  map[string][]string // package -> functions without a body
	gover  string
	n      int
}

func (l *apiLoader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		return l.load(path)
	}
	if p := l.ext[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("package %s is not available", path)
}

func (l *apiLoader) load(path string) (*types.Package, error) {
	if p, ok := l.done[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("package %s has no Go files", path)
		}
		return p, nil
	}
	dir := filepath.Join(repoDir, strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/"))
	bp, err := l.ctx.ImportDir(dir, 0)
	if err != nil {
		l.done[path] = nil
		if _, ok := err.(*build.NoGoError); ok {
			return nil, fmt.Errorf("package %s has no Go files", path)
		}
		l.errs = append(l.errs, err.Error())
		return nil, err
	}
	var fs []*ast.File
	names := append(append([]string{}, bp.GoFiles...), bp.CgoFiles...)
	sort.Strings(names)
	for _, n := range names {
		fn := filepath.Join(dir, n)
		if l.files[fn] == nil {
			f, err := parser.ParseFile(l.fset, fn, nil, parser.SkipObjectResolution|parser.ParseComments)
			if err != nil {
				l.errs = append(l.errs, err.Error())
				l.done[path] = nil
				return nil, err
			}
			l.files[fn] = f
		}
		fs = append(fs, l.files[fn])
		for _, d := range l.files[fn].Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil && !linknamed(fd) {
				l.decls[path] = append(l.decls[path], fd.Name.Name)
			}
		}
	}
	for _, s := range bp.SFiles {
		l.sfiles[path] = append(l.sfiles[path], filepath.Join(dir, s))
	}
	tc := types.Config{Importer: l, FakeImportC: true, GoVersion: l.gover, Sizes: types.SizesFor("gc", l.cfg.arch),
		Error: func(err error) { l.errs = append(l.errs, strings.ReplaceAll(err.Error(), repoDir+"/", "")) }}
	p, _ := tc.Check(path, l.fset, fs, nil)
	l.n++
	l.done[path] = p
	return p, nil
}

func linknamed(fd *ast.FuncDecl) bool {
	if fd.Doc == nil {
		return false
	}
	for _, c := range fd.Doc.List {
		if strings.HasPrefix(c.Text, "//go:linkname") {
			return true
		}
	}
	return false
}

// apiOf lists the exported declarations of a package.
func apiOf(p *types.Package) map[string]string {
	out := map[string]string{}
	q := func(x *types.Package) string { return x.Path() }
	for _, n := range p.Scope().Names() {
		if !token.IsExported(n) {
			continue
		}
		o := p.Scope().Lookup(n)
		switch o := o.(type) {
		case *types.Const:
			out[n] = "const " + types.TypeString(o.Type(), q) + " = " + o.Val().ExactString()
		case *types.Var:
			out[n] = "var " + types.TypeString(o.Type(), q)
		case *types.Func:
			out[n] = sigString(o.Type().(*types.Signature), q)
		case *types.TypeName:
			s := "type "
			if o.IsAlias() {
				s += "= " + types.TypeString(types.Unalias(o.Type()), q)
				out[n] = s
				continue
			}
			s += shapeOf(o.Type().Underlying(), q)
			out[n] = s
			ms := types.NewMethodSet(types.NewPointer(o.Type()))
			vs := types.NewMethodSet(o.Type())
			if types.IsInterface(o.Type()) {
				ms = vs
			}
			for i := 0; i < ms.Len(); i++ {
				m := ms.At(i).Obj()
				if !m.Exported() {
					continue
				}
				recv := "*"
				if vs.Lookup(m.Pkg(), m.Name()) != nil {
					recv = ""
				}
				out[n+"."+m.Name()] = "method " + recv + sigString(m.Type().(*types.Signature), q)
			}
		}
	}
	return out
}

func sigString(s *types.Signature, q types.Qualifier) string {
	var b strings.Builder
	list := func(t *types.Tuple) {
		b.WriteString("(")
		for i := 0; i < t.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(types.TypeString(t.At(i).Type(), q))
		}
		b.WriteString(")")
	}
	b.WriteString("func")
	if tp := s.TypeParams(); tp != nil {
		fmt.Fprintf(&b, "[%d]", tp.Len())
	}
	list(s.Params())
	if s.Variadic() {
		b.WriteString("...")
	}
	list(s.Results())
	return b.String()
}

// shapeOf shows only what other packages see of a type.
func shapeOf(t types.Type, q types.Qualifier) string {
	st, ok := t.(*types.Struct)
	if !ok {
		if it, ok := t.(*types.Interface); ok {
			var ms []string
			for i := 0; i < it.NumMethods(); i++ {
				ms = append(ms, it.Method(i).Name()+sigString(it.Method(i).Type().(*types.Signature), q))
			}
			sort.Strings(ms)
			return "interface{" + strings.Join(ms, "; ") + "}"
		}
		return types.TypeString(t, q)
	}
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Exported() {
			fs = append(fs, f.Name()+" "+types.TypeString(f.Type(), q))
		} else if f.Embedded() {
			fs = append(fs, "embedded")
		}
	}
	return "struct{" + strings.Join(fs, "; ") + "}"
}

var textRe = regexp.MustCompile(`(?m)^\s*TEXT\s+[^\s(]*·(\w+)(?:<ABI\w+>)?\s*\(SB\)`)

func taskAPI(rp *Report) {
	rp.rule("every combination of platform, compiler, cgo and build tags type-checks, with one definition of every function and an assembly body for each declaration without one")
	rp.rule("the exported declarations are the same in all combinations")
	dirs := moduleDirs()
	tags := customTags(dirs)
	fset := token.NewFileSet()
	// external packages, from one configuration
	imps := map[string]bool{}
	files := map[string]*ast.File{}
	for _, d := range dirs {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(d, e.Name()), nil, parser.ImportsOnly)
			if err != nil {
				continue
			}
			for _, i := range f.Imports {
				p := strings.Trim(i.Path.Value, `"`)
				if p != "C" && p != "unsafe" && p != modPath && !strings.HasPrefix(p, modPath+"/") {
					imps[p] = true
				}
			}
		}
	}
	pc := &packages.Config{Mode: packages.NeedName | packages.NeedTypes | packages.NeedImports | packages.NeedDeps | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedFiles | packages.NeedCompiledGoFiles, Dir: repoDir, Env: goEnv(goConfigs["amd64"]), Fset: fset}
	ext := map[string]*types.Package{}
	if len(imps) > 0 {
		pk, err := packages.Load(pc, sortedKeys(imps)...)
		if err != nil {
			rp.und("load", err.Error(), "C21", "C18")
			return
		}
		for _, p := range pk {
			if p.Types != nil && len(p.Errors) == 0 {
				ext[p.PkgPath] = p.Types
			}
		}
	}
	for i := range imps {
		if ext[i] == nil {
			rp.und("load", "imported package "+i+" is not available", "C21", "C18")
			return
		}
	}
	gover := "go1.24"
	if b, err := os.ReadFile(repoDir + "/go.mod"); err == nil {
		if m := regexp.MustCompile(`(?m)^go (\d+\.\d+)`).FindStringSubmatch(string(b)); m != nil {
			gover = "go" + m[1]
		}
	}
	var cfgs []apiConfig
	for _, pl := range apiPlatforms {
		o, ar, _ := strings.Cut(pl, "/")
		for _, comp := range []string{"gc", "gccgo"} {
			if comp == "gccgo" && ar == "wasm" {
				continue
			}
			for _, cg := range []bool{true, false} {
				if cg && (ar == "wasm" || o == "plan9") {
					continue
				}
				for m := 0; m < 1<<len(tags); m++ {
					c := apiConfig{os: o, arch: ar, compiler: comp, cgo: cg}
					for i, t := range tags {
						if m>>i&1 == 1 {
							c.tags = append(c.tags, t)
						}
					}
					cfgs = append(cfgs, c)
				}
			}
		}
	}
	var rel int
	fmt.Sscanf(gover, "go1.%d", &rel)
	ref := map[string]map[string]string{}
	refName := ""
	for _, c := range cfgs {
		if c.os == "linux" && c.arch == "amd64" && c.compiler == "gc" && c.cgo && len(c.tags) == 0 {
			// the reference goes first
			cfgs = append([]apiConfig{c}, cfgs...)
			refName = c.String()
			break
		}
	}
	reported := map[string]bool{}
	for k, c := range cfgs {
		ctx := build.Default
		ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled, ctx.Compiler, ctx.BuildTags = c.os, c.arch, c.cgo, c.compiler, c.tags
		ctx.ToolTags = nil
		ctx.ReleaseTags = nil
		for i := 1; i <= 26; i++ {
			ctx.ReleaseTags = append(ctx.ReleaseTags, fmt.Sprintf("go1.%d", i))
		}
		l := &apiLoader{fset: fset, cfg: c, ctx: ctx, ext: ext, done: map[string]*types.Package{}, files: files, sfiles: map[string][]string{}, decls: map[string][]string{}, gover: gover}
		once := func(key, rule, msg, pos string, props ...string) {
			if !reported[key] {
				reported[key] = true
				rp.add(rule, msg, pos, props...)
			}
		}
		for _, d := range dirs {
			path := modPath
			if d != repoDir {
				path += "/" + filepath.ToSlash(strings.TrimPrefix(d, repoDir+"/"))
			}
			p, err := l.load(path)
			if p == nil {
				if ref[path] != nil || k == 0 {
					once("nopkg"+path, "api", fmt.Sprintf("package %s cannot be built for %s: %v", path, c, err), path, "C21", "C18")
				}
				continue
			}
			for _, fn := range l.decls[path] {
				n := 0
				for _, s := range l.sfiles[path] {
					b, _ := os.ReadFile(s)
					for _, m := range textRe.FindAllStringSubmatch(string(b), -1) {
						if m[1] == fn {
							n++
						}
					}
				}
				rp.Counts["assembly bodies comparisons"]++
				if n != 1 {
					once("asm"+path+fn, "backend", fmt.Sprintf("function %s declared without a body has %d assembly definitions for %s", fn, n, c), path, "C18", "C21")
				}
			}
			if strings.Contains(path, "/internal") || p.Name() == "main" {
				continue
			}
			api := apiOf(p)
			rp.Counts["API comparisons"] += len(api)
			if k == 0 {
				ref[path] = api
				continue
			}
			if ref[path] == nil {
				once("xpkg"+path, "api", fmt.Sprintf("package %s exists for %s but not for %s", path, c, refName), path, "C21")
				continue
			}
			for _, n := range sortedKeys(ref[path]) {
				if api[n] != ref[path][n] {
					have := api[n]
					if have == "" {
						have = "missing"
					}
					once("api"+path+n, "api", fmt.Sprintf("%s.%s is %q for %s but %s for %s", path, n, ref[path][n], refName, have, c), path, "C21")
				}
			}
			for _, n := range sortedKeys(api) {
				if _, ok := ref[path][n]; !ok {
					once("api"+path+n, "api", fmt.Sprintf("%s.%s (%s) exists for %s but not for %s", path, n, api[n], c, refName), path, "C21")
				}
			}
		}
		for _, e := range l.errs {
			once("err"+e, "typecheck", fmt.Sprintf("%s does not type-check: %s", c, e), strings.SplitN(e, " ", 2)[0], "C21", "C18")
		}
		rp.Counts["packages type-checked"] += l.n
		rp.Counts["configurations"]++
	}
	rp.Notes = append(rp.Notes, fmt.Sprintf("%d configurations (%d platforms, gc and other compilers, cgo on and off, tags %v)", len(cfgs)-1, len(apiPlatforms), tags))
}

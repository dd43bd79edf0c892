package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var goNames = []string{"noasm", "amd64", "arm64", "arm"}

func over(fmtStr string, names ...string) []string {
	var out []string
	for _, n := range names {
		out = append(out, fmt.Sprintf(fmtStr, n))
	}
	return out
}

// allLens are the numbers of bytes that can be buffered. Each has a worker of
// its own, which keeps the tables of terms small.
func allLens() []string {
	if os.Getenv("SCA_FAST") != "" { // while developing
		return []string{"0", "55", "56"}
	}
	var out []string
	for r := 0; r < 64; r++ {
		out = append(out, strconv.Itoa(r))
	}
	return out
}

var edgeLens = []string{"0", "1", "55", "56", "57", "63"}

// tasksFor lists the analyses that decide a property. The thorough tier
// differs in the number of bytes buffered when the hash is finished (all 64
// for every build and dispatch class) and in the platforms of the C code.
func tasksFor(prop, tier string) []string {
	full := tier == "thorough"
	cat := func(xs ...[]string) []string {
		var out []string
		for _, x := range xs {
			out = append(out, x...)
		}
		return out
	}
	block := over("block:%s", goNames...)
	write := cat(over("write:%s:0:empty", goNames...), over("write:%s:0:some", goNames...))
	misc := over("misc:%s", goNames...)
	cblock, cwrite, cmisc := []string{"block:cgo"}, []string{"write:cgo:0:empty", "write:cgo:0:some"}, []string{"misc:cgo"}
	var sum, one, oneAll, csum, cone, fall []string
	for _, s := range allLens() {
		sum = append(sum, "sum:noasm:0:"+s)
		oneAll = append(oneAll, "oneshot:noasm:0:"+s)
	}
	for _, s := range edgeLens {
		one = append(one, "oneshot:noasm:0:"+s)
	}
	if full {
		one = oneAll
		for _, s := range allLens() {
			for _, n := range goNames[1:] {
				sum = append(sum, "sum:"+n+":0:"+s)
				one = append(one, "oneshot:"+n+":0:"+s)
			}
			for _, n := range []string{"amd64", "arm64"} {
				sum = append(sum, "sum:"+n+":1:"+s)
				one = append(one, "oneshot:"+n+":1:"+s)
			}
			fall = append(fall, "fallback:noasm:0:"+s)
		}
		for _, s := range allLens() {
			csum = append(csum, "sum:cgo:0:"+s)
			cone = append(cone, "oneshot:cgo:0:"+s)
		}
		write = append(write, "write:amd64:1:empty", "write:arm64:1:empty", "write:amd64:1:some", "write:arm64:1:some")
		cblock = append(cblock, "block:cgoarm64", "block:cgoarm")
		cwrite = append(cwrite, "write:cgoarm64:0:empty", "write:cgoarm:0:empty", "write:cgoarm64:0:some", "write:cgoarm:0:some")
		cmisc = append(cmisc, "misc:cgoarm64", "misc:cgoarm")
		for _, s := range edgeLens {
			csum = append(csum, "sum:cgoarm64:0:"+s, "sum:cgoarm:0:"+s)
			cone = append(cone, "oneshot:cgoarm64:0:"+s, "oneshot:cgoarm:0:"+s)
		}
	} else {
		for _, s := range edgeLens {
			for _, n := range goNames[1:] {
				sum = append(sum, "sum:"+n+":0:"+s)
			}
			one = append(one, "oneshot:amd64:0:"+s)
		}
		for _, s := range []string{"0", "1", "55", "56", "63"} {
			csum = append(csum, "sum:cgo:0:"+s)
			cone = append(cone, "oneshot:cgo:0:"+s)
		}
		fall = []string{"fallback:noasm:0:0,1,55,56"}
	}
	hw := []string{"block:amd64", "block:arm64"}
	var sumEdge, sumHW []string
	for _, s := range edgeLens {
		sumEdge = append(sumEdge, over("sum:%s:0:"+s, goNames...)...)
		sumHW = append(sumHW, "sum:amd64:0:"+s, "sum:arm64:0:"+s)
	}
	mask := []string{"mask"}
	maskc := []string{"maskc"}
	tables := []string{"tables"}
	switch prop {
	case "C01":
		return cat(block, write, misc, sum, one)
	case "C02":
		return cat(block, write, sumEdge)
	case "C03":
		return cat(cwrite, csum, cone, cblock, cmisc, block, fall, mask, maskc, tables, []string{"misc:noasm"})
	case "C04":
		return write
	case "C05", "C06":
		return cat(block, write, sumEdge, mask, tables)
	case "C07":
		return cat(mask, maskc)
	case "C08":
		return tables
	case "C09":
		return cat(block, cblock, write, cwrite, sumEdge, csum)
	case "C10":
		if full {
			return cat(block, cblock, write, cwrite, misc, sum, one)
		}
		return cat(block, cblock, write, cwrite, misc, sumEdge, one)
	case "C11":
		return cat(sum, csum, misc)
	case "C12":
		return cat(misc, cmisc)
	case "C13", "C14":
		return misc
	case "C15":
		if full {
			return cat(write, cwrite, sum, csum, one, misc)
		}
		return cat(write, cwrite, sumEdge, csum, one, misc)
	case "C16":
		return cat([]string{"effects"}, block, cblock, write, cwrite, misc, cmisc, sumEdge)
	case "C17":
		return cat(write, sum, one, block, misc, mask)
	case "C18":
		return cat(hw, []string{"api"})
	case "C19":
		return cat(hw, []string{"write:amd64:0:empty", "write:arm64:0:empty", "write:amd64:0:some", "write:arm64:0:some"}, sumHW)
	case "C20":
		return cat(cwrite, csum, cone, cblock, cmisc, maskc)
	case "C21":
		return []string{"api"}
	case "C22":
		return cat(write, cwrite, sumEdge, misc, cmisc, []string{"api"})
	case "C23":
		if full {
			return cat(sum, one, csum, cone)
		}
		return cat(sumEdge, oneAll, csum, cone)
	case "C26":
		return cat(sumEdge, csum, misc, cmisc)
	case "C27":
		return []string{"calls"}
	case "C24":
		return cat(over("alloc:%s", goNames...), write, block, sumEdge)
	}
	return nil
}

// ---- running tasks in worker processes

func cacheKey() string {
	h := sha256.New()
	exe, _ := os.Executable()
	if b, err := os.ReadFile(exe); err == nil {
		h.Write(b)
	}
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if fi.Name() == ".git" || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, _ := os.ReadFile(p)
		fmt.Fprintf(h, "%s %d\n", p, len(b))
		h.Write(b)
		return nil
	})
	return hex.EncodeToString(h.Sum(nil)[:12])
}

func runWorker(ctx context.Context, task, cacheDir string) *Report {
	file := ""
	if cacheDir != "" {
		file = filepath.Join(cacheDir, strings.ReplaceAll(task, ":", "_")+".json")
		if b, err := os.ReadFile(file); err == nil {
			rp := &Report{}
			if json.Unmarshal(b, rp) == nil {
				return rp
			}
		}
	}
	exe, _ := os.Executable()
	c, cancel := context.WithTimeout(ctx, 600*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c, exe, "task", task)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "GOMEMLIMIT=3GiB")
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err := cmd.Run()
	rp := newReport(task)
	if jerr := json.Unmarshal(ob.Bytes(), rp); err != nil || jerr != nil {
		rp = newReport(task)
		msg := eb.String()
		if i := strings.IndexByte(msg, '\n'); i >= 0 {
			msg = msg[:i]
		}
		rp.und("worker", fmt.Sprintf("analysis did not finish: %v %s", err, clip(msg, 300)), allProps...)
		return rp
	}
	if file != "" {
		os.MkdirAll(cacheDir, 0o755)
		os.WriteFile(file, ob.Bytes(), 0o644)
	}
	return rp
}

// backEndsDiffer finds deviations that some back ends have and others do not:
// a hash that is wrong in the same way everywhere still agrees with itself.
func backEndsDiffer(reps []*Report) (out []Finding) {
	// scenario and rule -> builds that were analysed, and those that deviate
	ran := map[string][]string{}
	dev := map[string]map[string]Finding{}
	for _, r := range reps {
		t := strings.Split(r.Task, ":")
		if t[0] != "write" && t[0] != "sum" || t[1] == "arm" {
			continue
		}
		sc := t[0] + ":" + strings.Join(t[3:], ":")
		build := t[1] + ":" + t[2]
		if len(r.Undecided) == 0 {
			ran[sc] = append(ran[sc], build)
		}
		for _, f := range r.Findings {
			switch f.Rule {
			case "write-appends", "write-block", "sum-digest", "sum-verdict":
				k := sc + " " + strings.TrimSuffix(f.Rule, "-block")
				k = strings.TrimSuffix(k, "-appends")
				if dev[k] == nil {
					dev[k] = map[string]Finding{}
				}
				dev[k][build] = f
			}
		}
	}
	for _, k := range sortedKeys(dev) {
		sc := strings.Split(k, " ")[0]
		for _, b := range ran[sc] {
			if _, bad := dev[k][b]; bad {
				continue
			}
			bb := sortedKeys(dev[k])[0]
			f := dev[k][bb]
			f.Msg = fmt.Sprintf("%s deviates and %s does not: %s", bb, b, f.Msg)
			f.Props = []string{"C02"}
			out = append(out, f)
			break
		}
	}
	return
}

func concerns(f Finding, prop string) bool {
	for _, p := range f.Props {
		if p == prop || p == "*" {
			return true
		}
	}
	return false
}

// known findings: lines "finding: property=<id> rule=<rule> at=<place>"
func knownFindings(prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		if i := strings.Index(l, "key="); i > 0 {
			out[strings.TrimSpace(l[i+4:])] = l
		}
	}
	return out
}

func verifDir() string {
	exe, _ := os.Executable()
	return filepath.Dir(filepath.Dir(exe))
}

func check(prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tasks := tasksFor(prop, tier)
	if len(tasks) == 0 {
		fmt.Fprintf(os.Stderr, "no check for property %s\n", prop)
		return 2
	}
	cacheDir := ""
	if d := os.Getenv("SCA_CACHE"); d != "" {
		cacheDir = filepath.Join(d, cacheKey())
	}
	limit := 820 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	reps := make([]*Report, len(tasks))
	var wg sync.WaitGroup
	jobs := 8
	if n, err := strconv.Atoi(os.Getenv("SCA_JOBS")); err == nil { // while developing
		jobs = n
	}
	sem := make(chan bool, jobs)
	for i, t := range tasks {
		wg.Add(1)
		go func(i int, t string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			reps[i] = runWorker(ctx, t, cacheDir)
		}(i, t)
	}
	wg.Wait()

	var viol, und []Finding
	counts := map[string]int{}
	funcs := map[string]int{}
	rules := map[string]bool{}
	var notes []string
	if prop == "C02" {
		viol = append(viol, backEndsDiffer(reps)...)
	}
	for _, r := range reps {
		for _, f := range r.Findings {
			if concerns(f, prop) {
				viol = append(viol, f)
			}
		}
		for _, f := range r.Undecided {
			if concerns(f, prop) {
				f.Task = r.Task
				und = append(und, f)
			}
		}
		for k, v := range r.Counts {
			counts[k] += v
		}
		for k, v := range r.Funcs {
			funcs[k] += v
		}
		for _, k := range r.Rules {
			rules[k] = true
		}
		for _, n := range r.Notes {
			notes = append(notes, r.Task+": "+n)
		}
	}
	// one line per distinct finding
	seen := map[string]bool{}
	var uniq []Finding
	for _, f := range viol {
		k := f.Rule + f.Msg + f.Pos
		if !seen[k] {
			seen[k] = true
			uniq = append(uniq, f)
		}
	}
	known := knownFindings(prop)
	var fresh []Finding
	for _, f := range uniq {
		if l, ok := known[f.Rule+"@"+f.Pos]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, l)
			continue
		}
		fresh = append(fresh, f)
	}
	obl := 0
	for k, v := range counts {
		if k == "bounds" || k == "branches" || strings.HasSuffix(k, "obligations") || strings.HasSuffix(k, "paths") || strings.HasSuffix(k, "comparisons") {
			obl += v
		}
	}
	var fl []string
	for _, k := range sortedKeys(funcs) {
		if strings.Contains(k, "sha1cd") || strings.HasPrefix(k, "C.") {
			fl = append(fl, fmt.Sprintf("%s (%d calls analysed)", k, funcs[k]))
		}
	}
	var us []string
	useen := map[string]int{}
	for _, u := range und {
		m := strings.TrimPrefix(u.Msg, u.Task+": ")
		k := u.Rule + ": " + m
		useen[k]++
		if useen[k] == 1 {
			us = append(us, k)
		}
	}
	for i, k := range us {
		for _, u := range und {
			if u.Rule+": "+strings.TrimPrefix(u.Msg, u.Task+": ") == k {
				us[i] = u.Task + ": " + k
				if n := useen[k]; n > 1 {
					us[i] = fmt.Sprintf("%s and %d more: %s", u.Task, n-1, k)
				}
				break
			}
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(t0).Seconds(), "violations": len(fresh),
		"coverage": map[string]any{
			"explanation": "abstract interpretation of the source (go/ssa, the assembler's instruction listing, LLVM IR of the C code) in a canonical value-numbering domain; every obligation is a comparison or bound decided for all inputs of the stated scenario, nothing is executed",
			"tasks":       tasks, "obligations": obl, "discharged": obl - len(uniq), "counts": counts, "functions": fl, "functions_analysed": len(funcs),
			"rules": sortedKeys(rules), "undecided": us, "notes": notes,
			"checker_cmd": "tools/check " + prop,
		},
		"assumptions": []string{"go/types, go/ssa, the Go assembler's listing and clang's IR represent the source faithfully", "the compiler and CPU implement their specifications", "the analyser in /verif/sca is correct"},
	}
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644)
	sort.Slice(fresh, func(i, j int) bool { return fresh[i].Rule < fresh[j].Rule })
	for _, u := range us {
		io.WriteString(os.Stdout, "UNDECIDED "+clip(u, 600)+"\n")
	}
	if len(fresh) > 0 {
		rf := filepath.Join(evDir, prop+".violations.json")
		b, _ := json.MarshalIndent(fresh, "", " ")
		os.WriteFile(rf, append(b, '\n'), 0o644)
		for i, f := range fresh {
			if i < 12 {
				fmt.Printf("%s: [%s] %s\n", f.Pos, f.Rule, clip(f.Msg, 600))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rf)
		return 1
	}
	fmt.Printf("%s holds: %d tasks, %d obligations, %d functions, %d undecided, %.1f s\n", prop, len(tasks), obl, len(funcs), len(us), time.Since(t0).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

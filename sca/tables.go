package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// The disturbance-vector tables, read from the initialised package variables
// and compared with the vectors computed from their definition.

type tabEntry struct {
	typ, k, b, testT, maskI, maskB int64
	dm                             [80]uint32
}

func checkTable(rp *Report, what, pos string, es []tabEntry, props ...string) {
	bad := func(f string, x ...any) {
		rp.add("table", what+": "+fmt.Sprintf(f, x...), pos, props...)
	}
	end := -1
	for i, e := range es {
		if e.typ == 0 {
			end = i
			break
		}
	}
	if end < 0 {
		bad("no terminating entry with type 0 after %d entries", len(es))
		end = len(es)
	}
	seen := map[[3]int64]int{}
	for i, e := range es[:end] {
		rp.Counts["table entry comparisons"]++
		id := [3]int64{e.typ, e.k, e.b}
		if j, ok := seen[id]; ok {
			bad("entries %d and %d are the same vector", j, i)
			continue
		}
		seen[id] = i
		var d *DV
		for n := range dvList {
			if x := &dvList[n]; int64(x.typ) == e.typ && int64(x.k) == e.k && int64(x.b) == e.b {
				d = x
			}
		}
		if d == nil {
			bad("entry %d (type %d, K=%d, b=%d) is none of the published vectors", i, e.typ, e.k, e.b)
			continue
		}
		if e.maskI != 0 || e.maskB != int64(d.bit) {
			bad("entry %d, %s, uses mask word %d bit %d; the mask has it in word 0 bit %d", i, d, e.maskI, e.maskB, d.bit)
		}
		switch {
		case e.testT < 0 || e.testT > 79 || !validT(*d, int(e.testT)):
			bad("entry %d, %s: the state difference of the vector does not vanish before step %d", i, d, e.testT)
		case e.testT != int64(d.testT):
			bad("entry %d, %s: test step %d is not the published %d", i, d, e.testT, d.testT)
		}
		dm := dmOf(*d)
		for t := range dm {
			if dm[t] != e.dm[t] {
				bad("entry %d, %s: message difference word %d is %#08x, the vector gives %#08x", i, d, t, e.dm[t], dm[t])
				break
			}
		}
		rp.Counts["table word comparisons"] += 80
	}
	for _, d := range dvList {
		if _, ok := seen[[3]int64{int64(d.typ), int64(d.k), int64(d.b)}]; !ok {
			bad("%s is missing", d)
		}
	}
}

func constAt(a *An, st *State, p Ptr) int64 {
	n, ok := a.load(st, p, vkind{k: 'n', w: 32, size: 4}).(Num)
	if !ok {
		giveUp("table entry is not an integer")
	}
	c, ok := n.term().isConst()
	if !ok {
		giveUp("table entry is not constant: %s", n.term().short())
	}
	return int64(int32(uint32(c)))
}

func taskTables(rp *Report) {
	rp.rule("each table entry equals the vector computed from (type, K, b); the 32 published vectors occur once each, then a terminator")
	for _, cfg := range []string{"noasm", "arm"} {
		f, err := loadGo(goConfigs[cfg])
		if err == nil {
			_, err = f.initBase()
		}
		if err == nil {
			err = guard(func() { goTable(rp, f) })
		}
		if err != nil {
			rp.und("table", cfg+": "+err.Error(), "C08")
		}
	}
	f, err := loadGo(goConfigs["cgo"])
	if err == nil {
		_, err = f.initBase()
	}
	if err == nil {
		f.cmod, err = loadC(f, repoDir+"/cgo")
	}
	if err == nil {
		err = guard(func() { cTable(rp, f) })
	}
	if err != nil {
		rp.und("table", "C: "+err.Error(), "C08")
	}
}

func goTable(rp *Report, f *goFront) {
	p := f.pkg(modPath + "/ubc")
	fn := p.Func("SHA1_dvs")
	if fn == nil {
		giveUp("ubc.SHA1_dvs not found")
	}
	sl, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		giveUp("ubc.SHA1_dvs does not return a slice")
	}
	st0 := structOf(sl.Elem())
	if st0 == nil {
		giveUp("table entries are not structs")
	}
	off := map[string]int64{}
	for i := 0; i < st0.NumFields(); i++ {
		off[st0.Field(i).Name()] = f.fieldOff(st0, i)
	}
	for _, n := range []string{"DvType", "DvK", "DvB", "TestT", "MaskI", "MaskB", "Dm"} {
		if _, ok := off[n]; !ok {
			giveUp("table entries have no field %s", n)
		}
	}
	a := f.newRun()
	outs := a.harness(newState(), fn)
	if len(outs) != 1 || outs[0].kind != oRet {
		giveUp("ubc.SHA1_dvs has %d outcomes", len(outs))
	}
	s, ok := outs[0].val.(SliceV)
	if !ok {
		giveUp("ubc.SHA1_dvs returns %s", vstr(outs[0].val))
	}
	n, ok := constOf(outs[0].st.ctx, s.len)
	if !ok {
		giveUp("length of the table is not constant")
	}
	size := f.sizes.Sizeof(sl.Elem())
	var es []tabEntry
	for i := int64(0); i < n; i++ {
		get := func(o int64) int64 { return constAt(a, outs[0].st, Ptr{s.p.obj, s.p.off.addC(i*size + o)}) }
		e := tabEntry{typ: get(off["DvType"]), k: get(off["DvK"]), b: get(off["DvB"]), testT: get(off["TestT"]), maskI: get(off["MaskI"]), maskB: get(off["MaskB"])}
		for t := range e.dm {
			e.dm[t] = uint32(get(off["Dm"] + int64(4*t)))
		}
		es = append(es, e)
	}
	checkTable(rp, "ubc.SHA1_dvs", f.posStr(fn.Pos()), es, "C08")
	rp.events(a, "SHA1_dvs")
	// the exported bit constants
	for _, d := range dvList {
		name := fmt.Sprintf("DV_%s_%d_%d_bit", strings.Repeat("I", d.typ), d.k, d.b)
		c, ok := p.Pkg.Scope().Lookup(name).(*types.Const)
		if !ok {
			continue
		}
		rp.Counts["constant comparisons"]++
		if v, ok := constant.Uint64Val(constant.ToInt(c.Val())); !ok || v != 1<<uint(d.bit) {
			rp.add("table", fmt.Sprintf("ubc.%s is %s; the mask has %s in bit %d", name, c.Val(), d, d.bit), f.posStr(c.Pos()), "C08")
		}
	}
}

var dvInfoRe = regexp.MustCompile(`(?s)typedef\s+struct[^{;]*\{([^}]*)\}\s*dv_info_t`)

func cTable(rp *Report, f *goFront) {
	// field order of dv_info_t
	var names []string
	hs, _ := filepath.Glob(repoDir + "/cgo/*.h")
	for _, h := range hs {
		b, _ := os.ReadFile(h)
		if m := dvInfoRe.FindStringSubmatch(string(b)); m != nil {
			for _, d := range strings.Split(m[1], ";") {
				d = regexp.MustCompile(`(?s)/\*.*?\*/|//[^\n]*`).ReplaceAllString(d, "")
				fs := strings.Split(strings.TrimSpace(d), ",")
				if strings.TrimSpace(d) == "" {
					continue
				}
				for _, x := range fs {
					w := regexp.MustCompile(`\w+\s*(\[\s*\d+\s*\])?\s*$`).FindString(x)
					names = append(names, strings.TrimSpace(strings.SplitN(w, "[", 2)[0]))
				}
			}
		}
	}
	off := map[string]int64{}
	o := int64(0)
	for _, n := range names {
		off[n] = o
		if n == "dm" {
			o += 320
		} else {
			o += 4
		}
	}
	for _, n := range []string{"dvType", "dvK", "dvB", "testt", "maski", "maskb", "dm"} {
		if _, ok := off[n]; !ok {
			giveUp("dv_info_t has no field %s", n)
		}
	}
	a := f.newRun()
	st := newState()
	id := f.cmod.globObj(a, "sha1_dvs")
	g := f.cmod.globs["sha1_dvs"]
	total := f.cmod.size(g.t)
	if g.t.k != 'a' || f.cmod.size(g.t.elem) != o {
		giveUp("sha1_dvs has an unexpected layout")
	}
	a.base = f.base
	var es []tabEntry
	for at := int64(0); at+o <= total; at += o {
		get := func(x int64) int64 { return constAt(a, st, Ptr{id, linC(at + x)}) }
		e := tabEntry{typ: get(off["dvType"]), k: get(off["dvK"]), b: get(off["dvB"]), testT: get(off["testt"]), maskI: get(off["maski"]), maskB: get(off["maskb"])}
		for t := range e.dm {
			e.dm[t] = uint32(get(off["dm"] + int64(4*t)))
		}
		es = append(es, e)
	}
	checkTable(rp, "C table sha1_dvs", "cgo/ubc_check.c (sha1_dvs)", es, "C08", "C03")
}

package main

import (
	"os"
	"runtime/pprof"
)

func init() {
	if p := os.Getenv("SCA_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		profStop = func() { pprof.StopCPUProfile(); f.Close() }
	}
}

var profStop = func() {}

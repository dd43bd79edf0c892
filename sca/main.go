package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/metrics"
	"sync/atomic"
	"time"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: sca task NAME | sca check PROPERTY")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "task":
		go watchMemory()
		rp := runTask(os.Args[2])
		profStop()
		b, _ := json.MarshalIndent(rp, "", " ")
		os.Stdout.Write(append(b, '\n'))
	case "check":
		os.Exit(check(os.Args[2]))
	default:
		os.Exit(2)
	}
}

var memoryLow atomic.Bool

// watchMemory ends the task when its live data would starve the others.
func watchMemory() {
	s := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	for {
		time.Sleep(300 * time.Millisecond)
		metrics.Read(s)
		// the analysis stops by itself and reports what it found so far
		memoryLow.Store(s[0].Value.Uint64() > 2700<<20)
		if s[0].Value.Uint64() > 3300<<20 {
			fmt.Fprintln(os.Stderr, "the analysis needs too much memory")
			os.Exit(4)
		}
	}
}

// vh runs the runtime monitors: it drives the code generated for the fixtures
// and gotsrpc's runtime, and judges what it observes.
//
//	vh P01
package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"runtime/pprof"
	"sort"

	"verifharness/rt"
)

var checks = map[string]func(r *rt.Report){}

func main() {
	log.SetOutput(io.Discard)
	if len(os.Args) != 2 || checks[os.Args[1]] == nil {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("usage: vh", ids)
		os.Exit(2)
	}
	r := rt.NewReport(os.Args[1])
	r.Limit()
	watchdog(r)
	if f := os.Getenv("VERIF_CPUPROFILE"); f != "" {
		w, err := os.Create(f)
		if err != nil {
			panic(err)
		}
		_ = pprof.StartCPUProfile(w)
		checks[os.Args[1]](r)
		pprof.StopCPUProfile()
		r.Finish()
	}
	checks[os.Args[1]](r)
	r.Finish()
}

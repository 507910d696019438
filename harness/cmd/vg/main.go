// vg runs the generator of the working tree and judges what it observes: exit
// status, files, and what compilers and run times make of them.
//
//	vg P20
package main

import (
	"fmt"
	"io"
	"log"
	"os"

	"sort"

	"verifharness/rt"
)

var checks = map[string]func(r *rt.Report){}

// endpoints needs the generated fixtures compiled in.
var endpoints = func(r *rt.Report) { r.Broken("built without fixtures") }

func main() {
	log.SetOutput(io.Discard)
	if len(os.Args) != 2 || checks[os.Args[1]] == nil {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("usage: vg", ids)
		os.Exit(2)
	}
	r := rt.NewReport(os.Args[1])
	r.Limit()
	checks[os.Args[1]](r)
	r.Finish()
}

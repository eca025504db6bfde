// vct checks the properties of ct-fetch by running the real program against
// fake logs and comparing what it saved with the ground truth.
package main

import (
	"fmt"
	"os"

	"vharness/lib/mon"
)

var checks = map[string]func(*mon.Run){
	"C01": c01,
	"C02": c02,
	"C03": c03,
	"C04": c04,
	"C17": c17,
	"C20": c20,
	"C22": c22,
	"C33": c33,
}

func main() {
	if len(os.Args) < 2 || checks[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: vct ID")
		os.Exit(2)
	}
	mon.Supervise(os.Args[1])
	run := mon.New(os.Args[1])
	checks[os.Args[1]](run)
	os.Exit(run.Finish())
}

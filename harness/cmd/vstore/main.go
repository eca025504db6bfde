// vstore checks the storage layer (cache, commit, recovery, lock, expiry,
// encodings) by driving the real code and program against a real redis and
// comparing both sides with a shadow ledger.
package main

import (
	"flag"
	"fmt"
	"os"
	"syscall"

	"vharness/lib/mon"
)

var checks = map[string]func(*mon.Run){
	"C05": c05,
	"C06": c06,
	"C07": c07,
	"C08": c08,
	"C09": c09,
	"C10": c10,
	"C16": c16,
	"C17": c17,
	"C21": c21,
}

func main() {
	if len(os.Args) < 2 || checks[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: vstore ID")
		os.Exit(2)
	}
	mon.Supervise(os.Args[1])
	flag.CommandLine.Parse([]string{"-stderrthreshold=FATAL", "-logtostderr=false", "-log_dir=" + os.Getenv("VH_SCRATCH")})
	syscall.Umask(0022)
	run := mon.New(os.Args[1])
	checks[os.Args[1]](run)
	os.Exit(run.Finish())
}

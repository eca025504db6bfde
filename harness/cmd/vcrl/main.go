// vcrl checks the CRL side: downloading, verification, aggregation, file
// names, the issuer report and the audit report.
package main

import (
	"flag"
	"fmt"
	"os"
	"syscall"

	"vharness/lib/mon"
)

var checks = map[string]func(*mon.Run){
	"C11": c11,
	"C12": c12,
	"C13": c13,
	"C14": c14,
	"C15": c15,
	"C17": c17,
	"C19": c19,
}

func main() {
	if len(os.Args) < 2 || checks[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: vcrl ID")
		os.Exit(2)
	}
	mon.Supervise(os.Args[1])
	if flag.Lookup("log_dir") != nil {
		flag.CommandLine.Parse([]string{"-stderrthreshold=FATAL", "-logtostderr=false", "-log_dir=" + os.Getenv("VH_SCRATCH")})
	}
	syscall.Umask(0022)
	run := mon.New(os.Args[1])
	checks[os.Args[1]](run)
	os.Exit(run.Finish())
}

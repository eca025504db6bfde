package main

import (
	"fmt"
	"path/filepath"
	"sync"
	"time"

	"vharness/lib/mon"
)

// c17 is a workload for race-instrumented programs and judges nothing itself:
// commits and known lists of many bins while serials keep being recorded.
func c17(run *mon.Run) {
	run.Rule = "one evaluation per run of the workload"
	mon.Par(4, run.Pick(12, 60), func(i int) {
		r := run.Rand("load", i)
		k := newKnown(run, r)
		defer k.Close()
		for j := 0; j < 60; j++ {
			k.exps = append(k.exps, hourName(time.Now(), 20+j))
		}
		k.threads = []int{2, 8, 16, 32}[i%4]
		if err := k.Put(k.Make(1500)); err != nil {
			mon.Infra("%v", err)
		}
		recs := k.Make(3000)
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n+50 <= len(recs); n += 50 {
				select {
				case <-stop:
					return
				default:
				}
				k.ing.Store(items(k.W, recs[n:n+50]))
			}
		}()
		tmp := filepath.Dir(k.dir)
		for n := 0; n < 2; n++ {
			if res := k.runCommit(tmp); res.Crashed() {
				run.Violation("crash", "commit: "+res.Stderr, nil)
			}
			if res := k.start().Wait(90 * time.Second); res.Crashed() {
				run.Violation("crash", "aggregate-known: "+res.Stderr, nil)
			}
		}
		close(stop)
		wg.Wait()
		run.Eval(fmt.Sprint(i))
		run.Count("commit and known list runs", 4)
	})
}

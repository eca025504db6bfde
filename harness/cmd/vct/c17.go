package main

import (
	"encoding/pem"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"vharness/lib/ctsrv"
	"vharness/lib/mon"
	"vharness/lib/proc"
)

// c17 is a workload for race-instrumented programs and judges nothing itself:
// many logs coming and going, health queries and statistics, until a signal.
func c17(run *mon.Run) {
	run.Rule = "one evaluation per run of the churn workload"
	mon.Par(4, run.Pick(8, 40), func(i int) {
		e := NewEnv(run, fmt.Sprintf("churn%d", i), []uint64{4, 16, 64}[i%3])
		defer e.Close()
		rs := newSettings()
		defer rs.ts.Close()
		ca := filepath.Join(e.dir, "ca.pem")
		os.WriteFile(ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: rs.ts.Certificate().Raw}), 0644)
		for k := 0; k < 10; k++ {
			l := e.AddLog(k%3 == 2, 3600)
			e.Grow(l, 200+e.r.Intn(300), e.NormalTS(l))
			l.Pub(uint64(20), l.Entries[len(l.Entries)-1].TS+1)
			l.Enrolled = e.r.Intn(3) > 0
			if k%5 == 4 {
				fail, n := e.r.Intn(4), 0
				l.SetHook(func(q ctsrv.Req) *ctsrv.Resp {
					n++
					if n%4 == fail {
						return &ctsrv.Resp{Status: 404}
					}
					return nil
				})
			}
		}
		data := func() []map[string]any {
			d := []map[string]any{}
			for _, l := range e.logs {
				d = append(d, l.Meta(l.Enrolled))
			}
			return d
		}
		rs.set("", data())
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			mon.Infra("%v", err)
		}
		health := ln.Addr().String()
		ln.Close()
		res := e.Run(RunOpt{NoMeta: true, Forever: true, Timeout: 120 * time.Second,
			Env: []string{"remoteSettingsURL=" + rs.ts.URL + "/v1/", "remoteSettingsUpdateInterval=1", "SSL_CERT_FILE=" + ca,
				"healthAddr=" + health, "statsRefreshPeriod=1s", fmt.Sprintf("numThreads=%d", 1+i%5)},
			OnStart: func(p *proc.Proc) {
				stop := make(chan struct{})
				for c := 0; c < 3; c++ {
					go func() {
						cl := &http.Client{Timeout: 2 * time.Second}
						for {
							select {
							case <-stop:
								return
							case <-time.After(7 * time.Millisecond):
							}
							if r, err := cl.Get("http://" + health + "/health"); err == nil {
								io.Copy(io.Discard, r.Body)
								r.Body.Close()
								run.Count("health queries", 1)
							}
						}
					}()
				}
				for step := 0; step < 5; step++ {
					time.Sleep(time.Duration(800+e.r.Intn(700)) * time.Millisecond)
					for _, l := range e.logs {
						if n := l.Heads[len(l.Heads)-1][0]; n < uint64(len(l.Entries)) {
							l.Pub(n+(uint64(len(l.Entries))-n+1)/2, l.Heads[len(l.Heads)-1][1]+1)
						}
						if e.r.Intn(3) == 0 {
							l.Enrolled = !l.Enrolled
						}
					}
					mode := ""
					if step == 2 {
						mode = "garbage"
					}
					rs.set(mode, data())
				}
				close(stop)
				p.Kill([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[i%2])
			}})
		if res.Crashed() {
			run.Violation("crash", "ct-fetch: "+res.Stderr, nil)
		}
		run.Eval(fmt.Sprint(i))
		run.Count("churn runs", 1)
	})
}

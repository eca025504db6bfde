package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"vharness/lib/crlw"
	"vharness/lib/der"
	"vharness/lib/mon"
	"vharness/lib/proc"
)

// c17 is a workload for race-instrumented programs and judges nothing itself:
// many issuers with many CRLs, some of which fail, on many threads.
func c17(run *mon.Run) {
	run.Rule = "one evaluation per run of the workload"
	mon.Par(4, run.Pick(8, 40), func(i int) {
		r := run.Rand("load", i)
		d, err := os.MkdirTemp(run.Scratch, "load")
		if err != nil {
			mon.Infra("%v", err)
		}
		defer os.RemoveAll(d)
		srv := crlw.NewServer()
		defer srv.Close()
		root := crlw.Root("Root")
		rows := []crlw.Row{crlw.RootRow(root)}
		plan := func(ca *crlw.CA, u string, n int) {
			var es []der.Revoked
			for ; n > 0; n-- {
				b := make([]byte, 10)
				r.Read(b)
				b[0] |= 1
				b[0] &= 0x7f
				es = append(es, der.Revoked{Serial: b, Reason: r.Intn(7) - 1, Time: time.Now().Add(-time.Hour)})
			}
			body := (&der.CRL{Issuer: ca.Name, This: time.Now().Add(-time.Hour), Next: time.Now().Add(time.Hour * time.Duration(48-r.Intn(2)*60)), Entries: es,
				Exts: [][]byte{der.CRLNumber(1)}}).Sign(ca.Key)
			lm := time.Now().Add(-time.Hour)
			rp := &crlw.Resp{Kind: "ok", Body: body, LastMod: lm, Delay: time.Duration(r.Intn(5)) * time.Millisecond}
			switch r.Intn(8) {
			case 0:
				rp.Kind, rp.Code = "status", 404
			case 1:
				rp.Kind, rp.Cut = "trunc", len(body)/2
			case 2:
				rp.Body = append([]byte(nil), body...)
				rp.Body[len(body)-1] ^= 1
			}
			srv.Plan(u, rp)
		}
		for j := 0; j < 24; j++ {
			ca := root.Sub(fmt.Sprint("Issuer ", j))
			var urls []string
			for n := 0; n < 1+r.Intn(4); n++ {
				u := fmt.Sprintf("http://c%d.example/%d.crl", j, n)
				urls = append(urls, u)
				plan(ca, u, r.Intn(60))
			}
			if len(urls) == 1 {
				rows = append(rows, crlw.SubRow(ca, urls[0], ""))
			} else {
				rows = append(rows, crlw.SubRow(ca, "", crlw.JSONArray(urls)))
			}
		}
		rep := filepath.Join(d, "ccadb.csv")
		os.WriteFile(rep, crlw.Report(r, rows), 0644)
		env := append(proc.BaseEnv(d), "http_proxy=http://"+strings.Replace(srv.Addr, "127.0.0.1", "localhost", 1), fmt.Sprintf("numThreads=%d", []int{4, 16, 32}[i%3]))
		for n := 0; n < 3; n++ {
			p, err := proc.Start(filepath.Join(bin, "aggregate-crls"), []string{"-logtostderr", "-v=1", "-ccadb", rep, "-crlpath", filepath.Join(d, "crls"), "-revokedpath", filepath.Join(d, "revoked"),
				"-enrolledpath", filepath.Join(d, "enrolled.json"), "-auditpath", filepath.Join(d, "audit.json")}, env, d)
			if err != nil {
				mon.Infra("%v", err)
			}
			if n == 2 {
				time.Sleep(time.Duration(100+r.Intn(900)) * time.Millisecond)
				p.Kill(syscall.SIGTERM)
			}
			if res := p.Wait(120 * time.Second); res.Crashed() {
				run.Violation("crash", "aggregate-crls: "+tail(res.Stderr), nil)
			}
		}
		run.Eval(fmt.Sprint(i))
		run.Count("aggregate-crls runs", 3)
	})
}

package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"vharness/lib/ctsrv"
	"vharness/lib/proc"
	"vharness/lib/redisx"
)

// randomChunk scripts how the server splits get-entries answers.
func randomChunk(r *rand.Rand) func(start, end uint64) uint64 {
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return func(s, e uint64) uint64 { return 1 }
	case 2:
		n := uint64(1 + r.Intn(9))
		return func(s, e uint64) uint64 { return n }
	case 3: // aligned to a boundary, as real logs do
		n := uint64(1) << uint(1+r.Intn(6))
		return func(s, e uint64) uint64 { return n - s%n }
	}
	seed := r.Int63()
	return func(s, e uint64) uint64 { return 1 + (s*2654435761+uint64(seed))%7 }
}

// httpFault makes a one-request fault for a log; the returned text names it.
func httpFault(r *rand.Rand, l *LogInfo) (func(q ctsrv.Req) *ctsrv.Resp, string) {
	var ep string
	if l.Tiled {
		ep = []string{"checkpoint", "data", "data", "tile", "issuer", "issuer"}[r.Intn(6)]
	} else {
		ep = []string{"sth", "proof", "entries", "entries", "entries"}[r.Intn(5)]
	}
	n := 0
	if ep == "entries" || ep == "data" || ep == "tile" || ep == "issuer" {
		n = r.Intn(1 + r.Intn(6))
	}
	persistent := r.Intn(2) == 0
	var rs ctsrv.Resp
	kind := ""
	kinds := 9
	switch k := r.Intn(kinds); k {
	case 0:
		rs.Status, kind = 500, "500"
	case 1:
		rs.Status, kind = 404, "404"
	case 2:
		rs.Abort, kind = true, "abort"
	case 3:
		rs.Partial, kind = true, "partial"
	case 4:
		rs.Body, kind = []byte("{\"entries\": [garbage"), "garbage"
	case 5:
		rs.Body, kind = []byte("{}"), "empty object"
	case 6:
		rs.Body, kind = []byte("{\"entries\": []}"), "empty list"
	case 7:
		rs.Delay, kind = time.Duration(20+r.Intn(200))*time.Millisecond, "delay"
	case 8:
		rs.Status, rs.Body, kind = 503, []byte("busy"), "503"
		rs.Header = map[string]string{"Retry-After": "0"}
	}
	if l.Tiled && (kind == "500" || kind == "abort" || kind == "partial") {
		// The tile client retries these with pauses of seconds: one only.
		persistent = false
		rs.Header = map[string]string{"Retry-After": "0"}
	}
	return func(q ctsrv.Req) *ctsrv.Resp {
		if q.Ep == ep && (q.N == n || persistent && q.N > n) {
			c := rs
			return &c
		}
		return nil
	}, fmt.Sprintf("%s %s #%d persistent=%v", kind, ep, n, persistent)
}

// faultStep performs one ct-fetch run under a random fault and says which.
func (e *Env) faultStep(allowSlow bool) (proc.Result, string) {
	r := e.r
	for _, l := range e.logs {
		l.SetHook(nil)
		l.ResetCounts()
	}
	kind := r.Intn(9)
	max := int64(30)
	if e.cmdMax > 0 {
		max = e.cmdMax
	}
	nth := 1 + r.Int63n(max)
	var o RunOpt
	desc := ""
	switch kind {
	case 0:
		desc = "healthy"
	case 1:
		for _, l := range e.logs {
			if r.Intn(3) > 0 {
				h, d := httpFault(r, l)
				l.SetHook(h)
				desc += l.Name() + ": " + d + "; "
			}
		}
	case 2:
		after := r.Intn(2) == 0
		desc = fmt.Sprintf("SIGKILL at redis command %d after=%v", nth, after)
		o.Redis = func(p *proc.Proc, n int64, args []string) redisx.Action {
			if n != nth {
				return redisx.Action{}
			}
			k := func() { p.Kill(syscall.SIGKILL) }
			if after {
				return redisx.Action{Kind: redisx.ExecDrop, Post: k}
			}
			return redisx.Action{Kind: redisx.Drop, Pre: k}
		}
	case 3:
		cmd := []string{"sadd", "sadd", "set", "expireat"}[r.Intn(4)]
		from := 1 + r.Int63n(max/2+1)
		forever := r.Intn(2) == 0
		exec := r.Intn(4) == 0
		text := []string{"OOM command not allowed when used memory > 'maxmemory'.", "ERR injected", "READONLY You can't write against a read only replica."}[r.Intn(3)]
		desc = fmt.Sprintf("redis error %q on %s #%d forever=%v exec=%v then SIGTERM", text, cmd, from, forever, exec)
		var cnt, fired atomic.Int64
		o.Redis = func(p *proc.Proc, n int64, args []string) redisx.Action {
			if !strings.EqualFold(args[0], cmd) {
				return redisx.Action{}
			}
			if k := cnt.Add(1); k == from || forever && k > from {
				if fired.Add(1) == 1 && !allowSlow {
					go func() {
						time.Sleep(400 * time.Millisecond)
						p.Kill(syscall.SIGTERM)
					}()
				}
				if exec {
					return redisx.Action{Kind: redisx.ExecError, Text: text}
				}
				return redisx.Action{Kind: redisx.ErrorReply, Text: text}
			}
			return redisx.Action{}
		}
		if allowSlow && forever {
			forever = false
		}
	case 4:
		execd := r.Intn(2) == 0
		desc = fmt.Sprintf("connection lost at redis command %d executed=%v", nth, execd)
		o.Redis = func(p *proc.Proc, n int64, args []string) redisx.Action {
			if n == nth {
				if execd {
					return redisx.Action{Kind: redisx.ExecDrop}
				}
				return redisx.Action{Kind: redisx.Drop}
			}
			return redisx.Action{}
		}
	case 5:
		sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL}[r.Intn(3)]
		l := e.logs[r.Intn(len(e.logs))]
		n := r.Intn(8)
		desc = fmt.Sprintf("%v at request %d of %s", sig, n, l.Name())
		var pp atomic.Pointer[proc.Proc]
		o.OnStart = func(p *proc.Proc) { pp.Store(p) }
		var c atomic.Int64
		l.SetHook(func(q ctsrv.Req) *ctsrv.Resp {
			if int(c.Add(1)) == n+1 {
				return &ctsrv.Resp{Pre: func() {
					for i := 0; i < 100 && pp.Load() == nil; i++ {
						time.Sleep(time.Millisecond)
					}
					if p := pp.Load(); p != nil {
						p.Kill(sig)
					}
				}, Delay: 5 * time.Millisecond}
			}
			return nil
		})
	case 6:
		desc = fmt.Sprintf("SIGTERM at redis command %d", nth)
		o.Redis = func(p *proc.Proc, n int64, args []string) redisx.Action {
			if n == nth {
				return redisx.Action{Pre: func() { p.Kill(syscall.SIGTERM) }, Delay: 3 * time.Millisecond}
			}
			return redisx.Action{}
		}
	case 7:
		m := 10 + r.Int63n(200)
		desc = fmt.Sprintf("run forever, SIGTERM after %d redis commands", m)
		o.Forever = true
		base := e.cmdCount.Load()
		t0 := time.Now()
		o.Stop = func() bool { return e.cmdCount.Load()-base > m || time.Since(t0) > 3*time.Second }
	case 8:
		if r.Intn(2) == 0 {
			nth = 1 + r.Int63n(5)
		}
		desc = fmt.Sprintf("redis error on GET from command %d", nth)
		text := []string{"ERR injected", "LOADING Redis is loading the dataset in memory"}[r.Intn(2)]
		one := r.Intn(2) == 0 || strings.HasPrefix(text, "LOADING")
		var c atomic.Int64
		o.Redis = func(p *proc.Proc, n int64, args []string) redisx.Action {
			if strings.EqualFold(args[0], "get") {
				if k := c.Add(1); k == nth || !one && k > nth {
					return redisx.Action{Kind: redisx.ErrorReply, Text: text}
				}
			}
			return redisx.Action{}
		}
	}
	before := e.cmdCount.Load()
	res := e.Run(o)
	if n := e.cmdCount.Load() - before; kind == 0 && n > 0 {
		e.cmdMax = n
	}
	for _, l := range e.logs {
		l.SetHook(nil)
	}
	e.run.Count("fault kind "+strings.SplitN([]string{"none", "http", "kill-redis", "redis-write-error", "redis-disconnect", "signal-http", "term-redis", "forever", "redis-read-error"}[kind], " ", 2)[0], 1)
	return res, desc
}

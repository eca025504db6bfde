package main

import (
	"fmt"

	"vharness/lib/ctsrv"
	"vharness/lib/mon"
)

func edgeSize(e *Env, i int) int {
	b := int(e.batch)
	switch i % 10 {
	case 0:
		return []int{0, 1, 2, 3}[e.r.Intn(4)]
	case 1:
		return 4 + e.r.Intn(3)
	case 2:
		return b - 1 + e.r.Intn(3)
	case 3:
		return b + 1 + e.r.Intn(4)
	case 4:
		return 2*b - 1 + e.r.Intn(4)
	case 5:
		return 3*b + e.r.Intn(b)
	}
	n := 10 * b
	if n > 700 {
		n = 700
	}
	return 4 + e.r.Intn(n)
}

// worldRFC: RFC 6962 logs of many sizes, fault steps, then convergence, then
// growth and convergence again.
func worldRFC(run *mon.Run, i int, nLogs, nSteps int, tiled bool) {
	batches := []uint64{4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 64, 100, 128, 256}
	name := fmt.Sprintf("world%d", i)
	e := NewEnv(run, name, batches[(i+int(run.Seed))%len(batches)])
	defer e.Close()
	off := e.r.Intn(10)
	for k := 0; k < nLogs; k++ {
		l := e.AddLog(tiled, uint64(60+e.r.Intn(86400)))
		n := edgeSize(e, k+off)
		if tiled {
			n = tiledSize(e, k+off)
		}
		long := e.r.Intn(4) == 0
		if long {
			e.Long(l)
			if n == 0 {
				n = 1
			}
		}
		e.Grow(l, n, e.NormalTS(l))
		l.PubAll()
		if long && (tiled || e.r.Intn(2) == 0) {
			e.preseed(l, 0, int64(l.Off)-1+int64(e.r.Intn(n/2+1)))
		} else if long {
			l.Reach = l.Off
		}
		if !tiled {
			l.Chunk = randomChunk(e.r)
		}
	}
	slow := i%8 == 7
	if e.Report(e.Check(e.Observe())) {
		mon.Infra("inconsistent initial world")
	}
	for s := 0; s < nSteps; s++ {
		if s > 0 && e.r.Intn(2) == 0 {
			for _, l := range e.logs {
				if e.r.Intn(2) == 0 {
					e.Grow(l, 1+e.r.Intn(int(e.batch)*2), e.NormalTS(l))
					l.PubAll()
				}
			}
		}
		if e.r.Intn(2) == 0 {
			e.Age()
		}
		if e.r.Intn(2) == 0 {
			e.OldKeys()
		}
		if tiled && e.r.Intn(3) == 0 {
			desc, bad := e.tamperStep()
			run.Sample("tamper", map[string]any{"world": name, "batch": e.batch, "step": s, "tampering": desc})
			for _, l := range e.logs {
				l.Hist = append(l.Hist, "after "+desc)
				run.Eval(fmt.Sprintf("%s/%d/%s/%d/%s", name, s, l.Name(), l.Size, desc))
			}
			if bad {
				return
			}
			continue
		}
		res, desc := e.faultStep(slow)
		if res.TimedOut {
			run.Violation("hang", fmt.Sprintf("%s: ct-fetch did not end under %s", name, desc), e.Detail(nil))
		}
		snap := e.Observe()
		bad := e.Report(e.Check(snap))
		for _, l := range e.logs {
			l.Hist = append(l.Hist, "after "+desc)
			st := ""
			if l.Prev != nil {
				st = fmt.Sprint(l.Prev.MinEntry, "-", l.Prev.MaxEntry)
			}
			run.Eval(fmt.Sprintf("%s/%d/%s/%d/%s", name, s, l.Name(), l.Size, st))
		}
		run.Sample(desc[:min(len(desc), 12)], map[string]any{"world": name, "batch": e.batch, "step": s, "fault": desc, "members": snap.N, "states": len(snap.States)})
		if bad {
			return
		}
	}
	e.Converge(run.ID)
	for _, l := range e.logs {
		e.Grow(l, 1+e.r.Intn(int(e.batch)+5), e.NormalTS(l))
		l.PubAll()
	}
	e.Converge(run.ID)
	for _, l := range e.logs {
		run.Eval(fmt.Sprintf("%s/final/%s/%d", name, l.Name(), l.Size))
	}
}

// bigWorld: few logs, batches of thousands of entries saved at once.
func bigWorld(run *mon.Run, i int, tiled bool) {
	name := fmt.Sprintf("big%d", i)
	r := run.Rand(name, "batch")
	e := NewEnv(run, name, uint64(1000+r.Intn(5000)))
	defer e.Close()
	for k := 0; k < 2; k++ {
		l := e.AddLog(tiled && k == 1, 3600)
		e.Grow(l, int(e.batch)+e.r.Intn(int(e.batch)), e.NormalTS(l))
		l.PubAll()
	}
	e.Converge(run.ID)
	snap := e.Observe()
	for _, l := range e.logs {
		for j, x := range l.Entries {
			if x.Eligible && !has(snap, l, x) {
				run.Violation("big-batch-missing", fmt.Sprintf("%s: %s entry %d of %d not recorded with batches of %d", name, l.Name(), j, l.Size, e.batch), e.Detail(l))
				return
			}
		}
		run.Count("entries in large batches", len(l.Entries))
		run.Eval(fmt.Sprintf("%s/%s/%d", name, l.Name(), l.Size))
	}
}

func c01(run *mon.Run) {
	run.Rule = "Worlds of RFC 6962 logs (sizes around 0-3, the batch size and its multiples, growth between runs, several response chunkings; all entry kinds) ingested by the real ct-fetch under one random fault per run (HTTP error/garbage/abort, redis error/disconnect, SIGKILL or SIGTERM at the n-th redis command or HTTP request). Oracle after every run: each claimed index is recorded, claims only grow; at the end healthy runs must complete every log. One evaluation per log and run; distinct by (world, step, log, size, claim)."
	run.Level = "fault_enumeration"
	run.Assume = []string{"redis keeps what it acknowledged", "batch size >= 4", "wall clock does not jump"}
	n := run.Pick(32, 400)
	mon.Par(8, n, func(i int) {
		if run.Violations() > 10 {
			return
		}
		worldRFC(run, i, 8, run.Pick(6, 12), false)
	})
	mon.Par(4, run.Pick(3, 24), func(i int) { bigWorld(run, i, false) })
}

func tiledSize(e *Env, i int) int {
	switch i % 10 {
	case 0:
		return e.r.Intn(3)
	case 1:
		return 255 + e.r.Intn(3)
	case 2:
		return 511 + e.r.Intn(3)
	case 3:
		return 1
	case 4:
		return 256
	}
	return e.r.Intn(900)
}

// Long makes l start with very many filler entries.
func (e *Env) Long(l *LogInfo) uint64 {
	k := uint(5 + e.r.Intn(35))
	if e.r.Intn(4) == 0 {
		k = []uint{12, 16, 31, 32}[e.r.Intn(4)]
	}
	off := uint64(1) << k
	switch e.r.Intn(4) {
	case 0:
		off += uint64(e.r.Int63n(int64(off)))
	case 1:
		off -= uint64(e.r.Intn(12))
	case 2:
		off -= uint64(e.r.Int63n(int64(off / 2)))
	}
	if l.Tiled {
		off = (off + 255) &^ 255
	}
	x := e.w.New(ctsrv.Expired, uint64(e.w.Base.UnixMilli())-4000*3600*1000)
	l.SetOffset(off, x)
	e.run.Count("logs with up to 2^40 earlier entries", 1)
	return off
}

package main

import (
	"fmt"

	"vharness/lib/mon"
)

// tsShape returns a timestamp sequence generator.
func (e *Env) tsShape(i int) (func(int) uint64, string) {
	base := uint64(e.w.Base.UnixMilli()) - 3000*3600*1000
	r := e.r
	switch i % 8 {
	case 0:
		return func(i int) uint64 { return base + uint64(i)*1000 }, "increasing"
	case 1:
		return func(i int) uint64 { return base + uint64(100000-i)*1000 }, "decreasing"
	case 2:
		return func(i int) uint64 { return base + uint64(r.Intn(1000000)) }, "random"
	case 3:
		return func(i int) uint64 { return base }, "constant"
	case 4:
		return func(i int) uint64 {
			if r.Intn(9) == 0 {
				return base * 2
			}
			return base + uint64(i)
		}, "outliers high"
	case 5:
		return func(i int) uint64 {
			if r.Intn(9) == 0 {
				return uint64(r.Intn(3))
			}
			return base + uint64(i)
		}, "outliers low"
	case 6:
		return func(i int) uint64 {
			if r.Intn(20) == 0 {
				return 1<<61 - uint64(r.Intn(5))
			}
			return base + uint64(r.Intn(50))
		}, "extreme"
	}
	return func(i int) uint64 { return base + uint64(i/7)*uint64(3600000) - uint64(i%7)*1000 }, "sawtooth"
}

func c22world(run *mon.Run, i int) {
	name := fmt.Sprintf("world%d", i)
	e := NewEnv(run, name, []uint64{4, 8, 16, 50, 64, 256}[i%6])
	defer e.Close()
	type lg struct {
		l     *LogInfo
		ts    func(int) uint64
		shape string
	}
	var ls []lg
	head := func(x lg) {
		// Tree head times before, among and after the entries.
		var lo, hi uint64
		for j, en := range x.l.Entries {
			if j == 0 || en.TS < lo {
				lo = en.TS
			}
			if en.TS > hi {
				hi = en.TS
			}
		}
		t := hi + 1000
		switch e.r.Intn(5) {
		case 0:
			t = lo
		case 1:
			t = lo/2 + hi/2
		case 2:
			if n := len(x.l.Heads); n > 0 {
				t = x.l.Heads[n-1][1] - 1
			}
		}
		x.l.Pub(uint64(len(x.l.Entries)), t)
	}
	for k := 0; k < 10; k++ {
		l := e.AddLog(k%3 == 2, uint64(1+e.r.Intn(90000)))
		ts, shape := e.tsShape(k + i)
		n := 4 + e.r.Intn(int(e.batch)*4)
		if k == 0 {
			n = int(e.batch) + 1 + e.r.Intn(3)
		}
		if l.Tiled {
			n = tiledSize(e, e.r.Intn(10))
		}
		e.Grow(l, n, ts)
		x := lg{l, ts, shape}
		head(x)
		if !l.Tiled {
			l.Chunk = randomChunk(e.r)
		}
		ls = append(ls, x)
	}
	eval := func(step int) bool {
		bad := e.Report(e.Check(e.Observe()))
		for _, x := range ls {
			k := "none"
			if p := x.l.Prev; p != nil {
				k = fmt.Sprintf("%d-%d %d-%d", p.MinEntry, p.MaxEntry, p.MinTimestamp, p.MaxTimestamp)
			}
			run.Eval(name + x.l.Name() + k)
			run.Count("timestamps "+x.shape, 1)
			run.Sample(x.shape, map[string]any{"world": name, "step": step, "claim": k, "heads": x.l.Heads})
		}
		return bad
	}
	for step := 0; step < 10; step++ {
		if step > 0 {
			for _, x := range ls {
				if e.r.Intn(6) == 0 { // the operator announces another merge delay
					x.l.MMD = uint64(1 + e.r.Intn(90000))
				}
				switch e.r.Intn(4) {
				case 0:
					n := 1 + e.r.Intn(int(e.batch)*2)
					if e.r.Intn(2) == 0 {
						n = 1 + e.r.Intn(2)
					}
					e.Grow(x.l, n, x.ts)
					head(x)
				case 1: // a newer head for the same entries
					n := len(x.l.Heads)
					x.l.Pub(x.l.Size, x.l.Heads[n-1][1]+uint64(e.r.Intn(100000)))
				case 2: // an older head again
					if n := len(x.l.Heads); n > 1 && e.r.Intn(2) == 0 {
						h := x.l.Heads[e.r.Intn(n)]
						x.l.Publish(h[0], h[1])
					}
				}
			}
		}
		if e.r.Intn(4) > 0 {
			e.Age()
		}
		if e.r.Intn(3) == 0 {
			e.faultStep(false)
		} else {
			e.healthyRun()
		}
		if eval(step) {
			return
		}
	}
	for _, x := range ls {
		if n := len(x.l.Heads); n > 0 {
			x.l.Pub(uint64(len(x.l.Entries)), x.l.Heads[n-1][1]+5000)
		}
	}
	e.Converge("C22")
	for k := 0; k < 2; k++ {
		e.healthyRun()
		eval(100 + k)
	}
	s := e.Observe()
	for _, x := range ls {
		n := len(x.l.Heads)
		st := s.States[x.l.ShortURL()]
		if x.l.Size > 3 && st.MaxTimestamp < x.l.Heads[n-1][1] {
			run.Violation("max-stuck", fmt.Sprintf("%s: %s is complete but its latest timestamp is %d, below the tree head's %d", name, x.l.Name(), st.MaxTimestamp, x.l.Heads[n-1][1]), e.Detail(x.l))
		}
	}
}

func c22(run *mon.Run) {
	run.Rule = "RFC 6962 and tiled logs whose entry timestamps increase, decrease, jump, repeat or take extreme values, with tree head timestamps before, among and after them, newer heads for the same entries and old heads served again; ct-fetch runs (some under faults) and after each run the saved interval of every log is compared with the ingested entries and served heads. One evaluation per log and run, distinct by saved state."
	run.Assume = []string{"wall clock does not jump"}
	n := run.Pick(40, 400)
	mon.Par(8, n, func(i int) {
		if run.Violations() > 10 {
			return
		}
		c22world(run, i)
	})
}

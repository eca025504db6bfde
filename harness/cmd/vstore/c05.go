package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	types "github.com/mozilla/crlite/go"

	"vharness/lib/mon"
	"vharness/lib/redisx"
)

// scanChaos rewrites SCAN and SSCAN replies the way redis may answer: members
// repeated (in one reply or later ones), in another order, with empty replies
// in between.
func scanChaos(seed int64) func(int, []string) redisx.Action {
	var mu sync.Mutex
	r := rand.New(rand.NewSource(seed))
	stash := map[string][]string{} // per key: members of earlier replies
	asked := map[string]bool{}
	type page struct {
		cur   string
		items []string
	}
	later := map[string]page{} // pages that were held back
	nLater := 0
	return func(conn int, args []string) redisx.Action {
		if len(args) < 2 {
			return redisx.Action{}
		}
		name := lower(args[0])
		var key, cur string
		switch name {
		case "scan":
			key, cur = "scan", args[1]
			if len(args) > 3 {
				key += args[3]
			}
		case "sscan":
			key, cur = "s:"+args[1], args[2]
		default:
			return redisx.Action{}
		}
		return redisx.Action{Rewrite: func(rep []byte) []byte {
			c, items, ok := redisx.ParseScan(rep)
			if !ok {
				return nil
			}
			mu.Lock()
			defer mu.Unlock()
			if p, held := later[key+cur]; held {
				c, items = p.cur, p.items
			}
			if r.Intn(4) == 0 && len(later) < 5000 { // all or a part of the page comes later
				k := 0
				if r.Intn(2) == 0 {
					k = r.Intn(len(items) + 1)
				}
				nLater++
				m := fmt.Sprint(uint64(1)<<62 + uint64(nLater))
				later[key+m] = page{c, append([]string(nil), items[k:]...)}
				c, items = m, items[:k]
			}
			if cur == "0" {
				stash[key] = nil
			} else if !asked[key+cur] && r.Intn(3) == 0 {
				asked[key+cur] = true
				return redisx.MakeScan(cur, nil) // an empty page
			}
			prev := stash[key]
			for _, x := range items {
				stash[key] = append(stash[key], x)
			}
			out := append([]string(nil), items...)
			for _, x := range items {
				if r.Intn(3) == 0 {
					out = append(out, x)
				}
			}
			for i := 0; i < 3 && len(prev) > 0; i++ {
				out = append(out, prev[r.Intn(len(prev))])
			}
			r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
			return redisx.MakeScan(c, out)
		}}
	}
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

// verifyCommit compares the state after a successful undisturbed commit with
// what the state before it requires.
func (w *W) verifyCommit(what string, s0 *Storage, k0 *Cache) (*Storage, *Cache) {
	s1, k1 := readStorage(w.dir), readCache(w.rs)
	v := func(key, f string, a ...any) {
		w.run.Violation(key, what+": "+fmt.Sprintf(f, a...), nil)
	}
	for _, p := range s1.Problems {
		v("storage-unreadable", "%s", p)
	}
	for _, d := range s1.Dups {
		v("duplicate", "%s", d)
	}
	if lstates(s1.Cov) != lstates(k0.Logs) {
		v("coverage", "published %s, cached states were %s", lstates(s1.Cov), lstates(k0.Logs))
	}
	now := time.Now()
	moved, kept := 0, 0
	for _, b := range allBins(s0.Bins, s1.Bins, k0.Bins, k1.Bins) {
		end, _ := expEnd(b.Exp)
		cov := coveredSerials(k0.Logs, k0.Bins[b])
		if end.After(now.Add(time.Minute)) {
			if d := diff(union(s0.Bins[b], cov), s1.Bins[b]); d != "" {
				v("stored", "bin %s: %s", b.Key(), d)
			}
		}
		rest := Set{}
		for m := range k0.Bins[b] {
			if !covered(k0.Logs, m) {
				rest[m] = true
			}
		}
		if d := diff(rest, k1.Bins[b]); d != "" {
			v("cached", "bin %s: %s", b.Key(), d)
		}
		moved += len(cov)
		kept += len(rest)
		w.run.Eval(fmt.Sprintf("%s/%d/%d/%d", what, len(s0.Bins[b]), len(cov), len(rest)))
	}
	w.run.Count("serials moved to storage", moved)
	w.run.Count("entries kept in cache", kept)
	return s1, k1
}

func (w *W) checkLedger(what string) {
	k := readCache(w.rs)
	for _, b := range allBins(w.ledger, k.Bins) {
		if d := diff(w.ledger[b], k.Bins[b]); d != "" {
			w.run.Violation("recorded", fmt.Sprintf("%s: cache bin %s: %s", what, b.Key(), d), nil)
		}
	}
}

func c05(run *mon.Run) {
	run.Rule = "a case is one (commit, bin); distinct cases differ in scenario, number already stored, number covered and number uncovered"
	run.Assume = []string{"redis and the file system behave as documented (SCAN may repeat and reorder)"}
	// quiet histories of several commits
	mon.Par(8, run.Pick(240, 6000), func(i int) {
		r := run.Rand("quiet", i)
		w := NewW(run, r)
		defer w.Close()
		what := "quiet"
		big := i%40 == 7
		if i%2 == 1 {
			what = "scan-chaos"
			w.px.SetDecide(scanChaos(r.Int63()))
		}
		if i%40 == 3 { // more bins than one batch
			what = "many-bins"
			base := time.Now().UTC().Truncate(time.Hour)
			w.exps = nil
			n := []int{1001, 1000, 1001 + r.Intn(30), 2001, 999, 2000}[(i/40)%6]
			for j := 0; j < n; j++ {
				w.exps = append(w.exps, base.Add(time.Duration(48+j)*time.Hour).Format("2006-01-02-15"))
			}
			w.issuers = w.issuers[:1]
		}
		if r.Intn(3) == 0 { // a bin of day resolution
			w.exps = append(w.exps, time.Now().UTC().Add(time.Duration(100+r.Intn(9000))*time.Hour).Format("2006-01-02"))
		}
		for k := 0; k < 2+r.Intn(3); k++ {
			n := r.Intn(120)
			if big {
				n = 1500 + r.Intn(3000)
				if i%80 == 7 && k == 0 {
					n = 20000 + r.Intn(20000)
					run.Count("bins with tens of thousands of entries", 1)
				}
				w.issuers, w.exps = w.issuers[:1], w.exps[:1]
			}
			if what == "many-bins" {
				n = len(w.exps) + 200
			}
			recs := w.Make(n)
			if what == "many-bins" {
				for j := range recs {
					recs[j].Bin.Exp = w.exps[j%len(w.exps)]
				}
			}
			if err := w.Put(recs); err != nil {
				run.Violation("store-failed", fmt.Sprintf("%s: %v", what, err), nil)
				return
			}
			if r.Intn(4) == 0 {
				w.PutOld(r.Intn(10))
			}
			if k == 0 {
				w.checkLedger(what)
			}
			w.SaveLogs()
			s0, k0 := readStorage(w.dir), readCache(w.rs)
			if err := w.Commit(); err != nil {
				run.Violation("commit-failed", fmt.Sprintf("%s: %v", what, err), nil)
				return
			}
			s1, k1 := w.verifyCommit(what, s0, k0)
			w.checkConservation(what, s1, k1)
			run.Count("quiet commits", 1)
			for _, l := range w.logs {
				if r.Intn(3) > 0 {
					l.Max += uint64(r.Intn(200000000))
					l.MaxE += uint64(r.Intn(500))
				}
			}
		}
	})
	// a log whose state has an undecodable ID, no coverage at all, ties, extremes
	mon.Par(8, run.Pick(40, 400), func(i int) { c05Extremes(run, run.Rand("extreme", i), i) })
	// commits while ingestion goes on
	mon.Par(8, run.Pick(90, 2000), func(i int) { c05Concurrent(run, run.Rand("conc", i), i) })
}

// checkConservation: nothing recorded is lost, nothing is invented.
func (w *W) checkConservation(what string, s *Storage, k *Cache) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, b := range allBins(w.ledger, s.Bins, k.Bins) {
		known := Set{}
		for m := range w.ledger[b] {
			ser := serialOf(m)
			known[ser] = true
			if !s.Bins[b][ser] && !k.Bins[b][m] {
				w.run.Violation("lost", fmt.Sprintf("%s: bin %s: serial %s is in neither cache nor storage", what, b.Key(), hx(ser)), nil)
			}
		}
		for ser := range s.Bins[b] {
			if !known[ser] {
				w.run.Violation("invented", fmt.Sprintf("%s: bin %s: stored serial %s was never recorded", what, b.Key(), hx(ser)), nil)
			}
		}
		for m := range k.Bins[b] {
			if !w.ledger[b][m] {
				w.run.Violation("invented", fmt.Sprintf("%s: bin %s: cached member %s was never recorded", what, b.Key(), hx(m)), nil)
			}
		}
	}
}

func c05Extremes(run *mon.Run, r *rand.Rand, i int) {
	w := NewW(run, r)
	defer w.Close()
	switch i % 4 {
	case 0: // merge delay beyond the newest timestamp: nothing is covered
		for _, l := range w.logs {
			l.Max = 5000
			l.MMD = 86400
		}
	case 1: // a new log that has no timestamps yet
		w.logs[0].Max = 0
		w.logs[0].MMD = 86400
	case 2: // nothing cached at all
	case 3: // same cutoff everywhere
		for _, l := range w.logs {
			l.MMD = 0
			l.Max = w.now
		}
	}
	var recs []Rec
	if i%4 != 2 {
		recs = w.Make(60)
	}
	for j := range recs {
		x := &recs[j]
		if i%4 == 0 || (i%4 == 1 && x.Log == 0) {
			x.Ts = 1 + uint64(r.Intn(10000))
			x.Mem = encMember(x.Ts, [32]byte([]byte(x.Mem[8:40])), serialOf(x.Mem))
		}
	}
	if len(recs) > 0 {
		w.Put(recs)
	}
	w.SaveLogs()
	for k := 0; k < 2; k++ {
		s0, k0 := readStorage(w.dir), readCache(w.rs)
		if err := w.Commit(); err != nil {
			run.Violation("commit-failed", fmt.Sprintf("extreme %d: %v", i%4, err), nil)
			return
		}
		s1, k1 := w.verifyCommit(fmt.Sprintf("extreme%d", i%4), s0, k0)
		w.checkConservation("extreme", s1, k1)
	}
	run.Eval(fmt.Sprintf("extreme/%d", i%4))
}

type saved struct {
	state string
	upto  int // number of members of this log recorded before it was saved
	max   uint64
}

// c05Concurrent commits repeatedly while other clients record entries and
// save log states in the order ct-fetch uses.
func c05Concurrent(run *mon.Run, r *rand.Rand, i int) {
	w := NewW(run, r)
	defer w.Close()
	for _, l := range w.logs { // time advances with each batch
		l.Max = w.now - 100000000
	}
	hist := make([]map[string]saved, len(w.logs)) // by state
	seq := make([][]Rec, len(w.logs))
	var hmu sync.Mutex
	for j := range hist {
		hist[j] = map[string]saved{}
	}
	w.SaveLogs()
	for j, l := range w.logs {
		hist[j][stateKey(l.State())] = saved{upto: 0}
	}
	// delays spread the commit over the ingestion
	ncmd := 0
	chaos := func(int, []string) redisx.Action { return redisx.Action{} }
	if i%3 > 0 {
		chaos = scanChaos(r.Int63())
	}
	w.px.SetDecide(func(conn int, args []string) redisx.Action {
		var d time.Duration
		hmu.Lock()
		ncmd++
		if ncmd%100 < 60 && r.Intn(3) == 0 {
			d = time.Duration(r.Intn(4000)) * time.Microsecond
		}
		if lower(args[0]) == "sscan" && r.Intn(4) == 0 && ncmd < 1000 {
			d = time.Duration(r.Intn(15000)) * time.Microsecond
		}
		hmu.Unlock()
		a := chaos(conn, args)
		a.After = d
		return a
	})
	stop := make(chan bool)
	var wg sync.WaitGroup
	lw := make([]*W, len(w.logs)) // generators of their own
	for j := range w.logs {
		lw[j] = &W{run: run, r: run.Rand("concgen", i, j), ing: w.ing, issuers: w.issuers, exps: w.exps, logs: []*Log{w.logs[j]}, now: w.now}
	}
	for j := range w.logs {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			g := lw[j]
			l := w.logs[j]
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				if n > 60 {
					time.Sleep(10 * time.Millisecond)
				}
				batch := g.Make(1 + g.r.Intn(12))
				top := l.Max
				for k := range batch {
					ts := l.Max + uint64(g.r.Intn(3000000))
					if g.r.Intn(3) == 0 {
						ts = l.Max - uint64(g.r.Intn(90000000))
					}
					if ts > top {
						top = ts
					}
					id := l.ID
					batch[k].Ts = ts
					batch[k].Mem = encMember(ts, id, serialOf(batch[k].Mem))
				}
				w.mu.Lock()
				for _, x := range batch { // attempted: may be recorded from here on
					if w.ledger[x.Bin] == nil {
						w.ledger[x.Bin] = Set{}
					}
					w.ledger[x.Bin][x.Mem] = true
				}
				w.mu.Unlock()
				var items = batch
				if err := g.putOnly(items); err != nil {
					run.Violation("store-failed", fmt.Sprintf("concurrent: %v", err), nil)
					return
				}
				hmu.Lock()
				seq[j] = append(seq[j], batch...)
				l.Max = top
				l.MaxE += uint64(len(batch))
				hist[j][stateKey(l.State())] = saved{upto: len(seq[j]), max: top}
				hmu.Unlock()
				if err := w.ing.SaveLogState(l.State()); err != nil {
					mon.Infra("save: %v", err)
				}
				time.Sleep(time.Duration(g.r.Intn(3000)) * time.Microsecond)
			}
		}(j)
	}
	ncommit := 3 + r.Intn(3)
	for k := 0; k < ncommit; k++ {
		s0 := readStorage(w.dir)
		hmu.Lock()
		n0 := 0
		for j := range seq {
			n0 += len(seq[j])
		}
		hmu.Unlock()
		if err := w.Commit(); err != nil {
			run.Violation("commit-failed", fmt.Sprintf("concurrent: %v", err), nil)
			break
		}
		s1 := readStorage(w.dir)
		for _, p := range append(s1.Problems, s1.Dups...) {
			run.Violation("storage-unreadable", "concurrent: "+p, nil)
		}
		// never shrinks
		for b := range s0.Bins {
			for ser := range s0.Bins[b] {
				if !s1.Bins[b][ser] {
					run.Violation("lost", "concurrent: stored serial "+hx(ser)+" disappeared", nil)
				}
			}
		}
		hmu.Lock()
		n1 := 0
		for j := range seq {
			n1 += len(seq[j])
		}
		run.Count("entries recorded during commits", n1-n0)
		must := 0
		for _, c := range s1.Cov {
			for j, l := range w.logs {
				if l.Short != c.ShortURL {
					continue
				}
				h, ok := hist[j][fmt.Sprintf("%d/%d", c.MaxEntry, c.MaxTimestamp)]
				if !ok {
					run.Violation("coverage", fmt.Sprintf("concurrent: published a state of %s that was never saved: %+v", l.Short, c), nil)
					continue
				}
				for _, x := range seq[j][:h.upto] {
					if covered(s1.Cov, x.Mem) {
						must++
						if !s1.Bins[x.Bin][serialOf(x.Mem)] {
							run.Violation("covered-not-stored", fmt.Sprintf("concurrent: entry of %s at %d is covered by the published %+v but serial %s is not stored", l.Short, x.Ts, c, hx(serialOf(x.Mem))), nil)
						}
					}
				}
			}
		}
		if len(s1.Cov) != len(w.logs) {
			run.Violation("coverage", fmt.Sprintf("concurrent: %d logs published, %d saved", len(s1.Cov), len(w.logs)), nil)
		}
		// only covered ones move
		w.mu.Lock()
		for b, set := range s1.Bins {
			for ser := range set {
				if s0.Bins[b][ser] {
					continue
				}
				ok := false
				for m := range w.ledger[b] {
					if serialOf(m) == ser && covered(s1.Cov, m) {
						ok = true
						break
					}
				}
				if !ok {
					run.Violation("uncovered-stored", fmt.Sprintf("concurrent: bin %s: serial %s was stored but no recorded entry of it is covered", b.Key(), hx(ser)), nil)
				}
			}
		}
		w.mu.Unlock()
		hmu.Unlock()
		run.Eval(fmt.Sprintf("conc/%d/%d/%d", len(w.logs), must, n1-n0))
		run.Count("concurrent commits", 1)
		run.Count("covered entries checked under concurrency", must)
	}
	close(stop)
	wg.Wait()
	w.checkConservation("concurrent", readStorage(w.dir), readCache(w.rs))
}

func stateKey(s *types.CTLogState) string { return fmt.Sprintf("%d/%d", s.MaxEntry, s.MaxTimestamp) }

func (w *W) putOnly(recs []Rec) error {
	return w.ing.Store(items(w, recs))
}

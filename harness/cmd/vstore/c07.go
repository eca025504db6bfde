package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"

	"vharness/lib/mon"
	"vharness/lib/proc"
	"vharness/lib/redisx"
)

// snapshot and restore of a whole redis
type snap struct {
	k   string
	v   string
	ttl time.Duration
}

func takeSnap(rs *redisx.Server) []snap {
	var out []snap
	ks, err := rs.C.Keys("*").Result()
	if err != nil {
		mon.Infra("keys: %v", err)
	}
	for _, k := range ks {
		v, err := rs.C.Dump(k).Result()
		if err != nil {
			continue
		}
		t, _ := rs.C.PTTL(k).Result()
		if t < 0 {
			t = 0
		}
		out = append(out, snap{k, v, t})
	}
	return out
}

func putSnap(rs *redisx.Server, s []snap) {
	rs.Flush()
	for _, x := range s {
		if err := rs.C.Restore(x.k, x.ttl, x.v).Err(); err != nil {
			mon.Infra("restore %s: %v", x.k, err)
		}
	}
}

// hist is a log with its true entries and an honest, resuming ingester.
type hlog struct {
	*Log
	entries []Rec
	lost    map[int]bool // lost for good by an event (see the known finding)
	after   int          // commits before the log is first ingested
}

type hist struct {
	*W
	hl    []*hlog
	trace []string
	// the commit that cache and storage last went through; epochs are only
	// numbers, so a cache of another lineage can look like the right one
	cacheID, storeID, commits int
}

func newHist(run *mon.Run, r *rand.Rand) *hist {
	w := NewW(run, r)
	h := &hist{W: w}
	own := len(w.logs)
	if r.Intn(4) == 0 { // many logs: their states do not fit a page of SCAN
		for j := 8 + r.Intn(40); j > 0; j-- {
			l := &Log{Short: fmt.Sprintf("many%d.example/%d", j, j*7919), MaxE: 5}
			r.Read(l.ID[:])
			w.logs = append(w.logs, l)
		}
		run.Count("histories with many logs", 1)
	}
	for i, l := range w.logs {
		l.MMD = []uint64{0, 3600, 86400}[r.Intn(3)]
		hl := &hlog{Log: l, lost: map[int]bool{}}
		ts := w.now - 900000000
		n := 150
		if i >= own {
			n, hl.after = 6, r.Intn(3)
		}
		for k := 0; k < n; k++ {
			x := w.Make(1)[0]
			ts += uint64(r.Intn(12000000))
			t := ts
			if r.Intn(8) == 0 {
				t -= uint64(r.Intn(6000000))
			}
			x.Log, x.Ts = i, t
			x.Mem = encMember(t, l.ID, serialOf(x.Mem))
			hl.entries = append(hl.entries, x)
		}
		h.hl = append(h.hl, hl)
	}
	return h
}

func (h *hist) state(l *hlog) *types.CTLogState {
	u, _ := url.Parse("https://" + l.Short + "/")
	s, err := h.ing.GetLogState(u)
	if err != nil {
		mon.Infra("log state: %v", err)
	}
	return s
}

// ingest up to n more entries of each log from where the cached state ends
func (h *hist) ingest(n int) {
	for _, l := range h.hl {
		if h.commits < l.after {
			continue
		}
		s := h.state(l)
		from := int(s.MaxEntry) + 1
		if s.MaxTimestamp == 0 && s.LogID == "" {
			from = 0
			s.LogID = base64.StdEncoding.EncodeToString(l.ID[:])
			s.MMD = l.MMD
		}
		to := from + n
		if to > len(l.entries) {
			to = len(l.entries)
		}
		if from >= to {
			continue
		}
		if err := h.Put(l.entries[from:to]); err != nil {
			mon.Infra("store: %v", err)
		}
		for _, e := range l.entries[from:to] {
			if e.Ts > s.MaxTimestamp {
				s.MaxTimestamp = e.Ts
			}
		}
		s.MaxEntry = uint64(to - 1)
		if err := h.ing.SaveLogState(s); err != nil {
			mon.Infra("save: %v", err)
		}
	}
}

func (h *hist) note(f string, a ...any) { h.trace = append(h.trace, fmt.Sprintf(f, a...)) }

func (h *hist) v(key, f string, a ...any) {
	h.run.Violation(key, fmt.Sprintf("history %v: ", h.trace)+fmt.Sprintf(f, a...), h.trace)
}

// consistent decides from the raw state whether cache and storage go together.
func (h *hist) consistent() bool {
	s, k := readStorage(h.dir), readCache(h.rs)
	if s.Epoch == "" && !s.HasCov {
		return k.Epoch == ""
	}
	se, _ := strconv.ParseUint(strings.TrimSpace(s.Epoch), 10, 64)
	ke, _ := strconv.ParseUint(k.Epoch, 10, 64)
	return k.Epoch != "" && ke == se+1
}

func c07(run *mon.Run) {
	run.Rule = "a case is one decision of a history (commit refused or done, recovery); distinct cases differ in the history up to it"
	run.Assume = []string{"a cache whose epoch happens to follow another storage's is indistinguishable and not tested"}
	mon.Par(8, run.Pick(500, 12000), func(i int) { c07History(run, run.Rand("hist", i), i) })
	mon.Par(8, run.Pick(48, 400), func(i int) { c07Restore(run, run.Rand("restore", i), i) })
	mon.Par(8, run.Pick(24, 200), func(i int) { c07Fetch(run, run.Rand("fetch", i), i) })
}

func copyDir(src, dst string) {
	os.MkdirAll(dst, 0755)
	if out, err := exec.Command("cp", "-a", src+"/.", dst).CombinedOutput(); err != nil {
		mon.Infra("cp: %v %s", err, out)
	}
}

func (h *hist) uncoveredLost(cov []LState, s *Storage, k *Cache) {
	// entries below the restored position that storage does not have and the
	// cache no longer has either
	for _, l := range h.hl {
		for _, c := range cov {
			if c.ShortURL != l.Short {
				continue
			}
			for i := 0; i <= int(c.MaxEntry) && i < len(l.entries); i++ {
				e := l.entries[i]
				if !covered(cov, e.Mem) && !s.Bins[e.Bin][serialOf(e.Mem)] && !k.Bins[e.Bin][e.Mem] {
					l.lost[i] = true
				}
			}
		}
	}
}

func (h *hist) checkCoverage() {
	s := readStorage(h.dir)
	n := 0
	for _, l := range h.hl {
		for _, c := range s.Cov {
			if c.ShortURL != l.Short {
				continue
			}
			for i := int(c.MinEntry); i <= int(c.MaxEntry) && i < len(l.entries); i++ {
				e := l.entries[i]
				if !covered(s.Cov, e.Mem) {
					continue
				}
				n++
				if !s.Bins[e.Bin][serialOf(e.Mem)] {
					key := "covered-missing"
					if l.lost[i] {
						key = "uncovered-lost-on-cache-loss"
					}
					h.v(key, "log %s entry %d at %d is within the published coverage %+v but not stored", l.Short, i, e.Ts, c)
				}
			}
		}
	}
	h.run.Count("covered entries checked", n)
}

func c07History(run *mon.Run, r *rand.Rand, hi int) {
	h := newHist(run, r)
	defer h.Close()
	var cacheSnaps [][]snap
	var snapIDs, dirIDs []int
	var dirs []string
	backup := filepath.Dir(h.dir)
	steps := 6 + r.Intn(8)
	forced := -1
	if hi%5 == 0 { // an event right after the first commit
		forced = r.Intn(3)
	}
	for k := 0; k < steps; k++ {
		if k > 0 || hi%6 != 1 { // some start with a commit of nothing
			h.ingest(r.Intn(25))
		}
		if r.Intn(3) == 0 {
			cacheSnaps = append(cacheSnaps, takeSnap(h.rs))
			snapIDs = append(snapIDs, h.cacheID)
		}
		ev := r.Intn(9)
		if forced >= 0 && k == 1 {
			ev = forced
		}
		if k == 0 && hi%7 != 3 {
			ev = 7
		} else if k == 0 {
			ev = 4
		}
		if k == 1 && hi%4 == 2 && h.consistent() && h.cacheID == h.storeID {
			// many commits later
			e := []uint64{8, 9, 99, 254, 255, 256, 999, 65535, 1<<31 - 1, 1 << 32, 1<<53 + 1, uint64(r.Int63n(1 << 40))}[r.Intn(12)]
			h.note("commits up to epoch %d", e)
			if err := os.WriteFile(filepath.Join(h.dir, "epoch"), []byte(fmt.Sprintf("%d\n", e)), 0644); err != nil {
				mon.Infra("%v", err)
			}
			h.rs.C.Set("epoch", e+1, 0)
			h.commits++
			h.cacheID, h.storeID = h.commits, h.commits
			run.Count("histories with many commits", 1)
		}
		switch ev {
		case 0:
			h.note("lose cache")
			h.rs.Flush()
			h.cacheID = 0
		case 1:
			if len(cacheSnaps) > 0 {
				n := r.Intn(len(cacheSnaps))
				h.note("roll cache back to snapshot %d", n)
				putSnap(h.rs, cacheSnaps[n])
				h.cacheID = snapIDs[n]
			}
		case 2:
			if len(dirs) > 0 {
				n := r.Intn(len(dirs))
				h.note("roll storage back to backup %d", n)
				os.RemoveAll(h.dir)
				copyDir(dirs[n], h.dir)
				h.storeID = dirIDs[n]
			}
		case 4:
			if k > 0 || hi%2 == 0 {
				h.interrupted(r)
			}
		case 3:
			if r.Intn(3) == 0 {
				h.note("new storage")
				os.RemoveAll(h.dir)
				os.MkdirAll(filepath.Join(h.dir, "serials"), 0755)
				h.storeID = 0
			}
		}
		h.rs.C.Del("lock::commit")
		cons := h.consistent()
		if cons && h.cacheID != h.storeID {
			run.Count("histories ended: cache of another lineage with the right epoch", 1)
			return
		}
		s0, k0 := readStorage(h.dir), readCache(h.rs)
		tree, dump := treeHash(h.dir), cacheDump(h.rs)
		if !cons {
			// a commit is refused and changes nothing
			if err := h.Commit(); err == nil {
				h.v("commit-accepted", "storage epoch %q, cache epoch %q: the commit was not refused", strings.TrimSpace(s0.Epoch), k0.Epoch)
				return
			}
			if treeHash(h.dir) != tree || cacheDump(h.rs) != dump {
				h.v("refused-commit-changed", "a refused commit changed storage or cache")
			}
			run.Count("commits refused", 1)
			run.Eval(fmt.Sprint("refused", h.trace))
		}
		if !cons || r.Intn(3) == 0 {
			err := h.db.EnsureCacheIsConsistent()
			k1 := readCache(h.rs)
			if treeHash(h.dir) != tree {
				h.v("recovery-wrote-storage", "recovery changed storage")
			}
			switch {
			case cons:
				if err != nil {
					h.v("recovery-failed", "consistent state: %v", err)
				}
				if cacheDump(h.rs) != dump {
					h.v("recovery-changed", "the state was consistent but recovery changed the cache")
				}
				run.Count("recoveries with nothing to do", 1)
			case !s0.HasCov:
				// nothing to restore from: must not pass for consistent
				if err == nil && !h.consistent() {
					h.v("recovery-failed", "recovery reported success but the state is still inconsistent")
				}
				if err != nil {
					if lstates(k1.Logs) != lstates(k0.Logs) && len(k1.Logs) != 0 {
						h.v("recovery-partial", "failed recovery left log states %s", lstates(k1.Logs))
					}
					run.Count("recoveries refused", 1)
					return
				}
				if len(k1.Logs) != 0 {
					h.v("recovery-positions", "storage has no coverage but log states are %s", lstates(k1.Logs))
				}
			default:
				if err != nil {
					h.v("recovery-failed", "%v", err)
					return
				}
				if lstates(k1.Logs) != lstates(s0.Cov) {
					h.v("recovery-positions", "log states after recovery %s, storage has %s", lstates(k1.Logs), lstates(s0.Cov))
				}
				if !h.consistent() {
					h.v("recovery-failed", "still inconsistent after recovery: storage epoch %q cache epoch %q", s0.Epoch, k1.Epoch)
				}
				for b := range k0.Bins {
					if d := diff(k0.Bins[b], k1.Bins[b]); d != "" {
						h.v("recovery-dropped", "recovery changed cached serials of %s: %s", b.Key(), d)
					}
				}
				h.uncoveredLost(s0.Cov, s0, k1)
				h.cacheID = h.storeID
				run.Count("recoveries", 1)
			}
			h.note("recover")
			run.Eval(fmt.Sprint("recover", cons, h.trace))
		}
		if r.Intn(4) > 0 || k == 0 {
			h.ingest(r.Intn(20))
			if err := h.Commit(); err != nil {
				h.v("commit-failed", "after recovery: %v", err)
				return
			}
			h.note("commit")
			h.commits++
			h.cacheID, h.storeID = h.commits, h.commits
			h.checkCoverage()
			run.Eval(fmt.Sprint("commit", h.trace))
			run.Count("commits", 1)
			if r.Intn(3) == 0 {
				d := filepath.Join(backup, fmt.Sprintf("b%d", len(dirs)))
				copyDir(h.dir, d)
				dirs = append(dirs, d)
				dirIDs = append(dirIDs, h.storeID)
			}
		}
	}
	// every history ends with full ingestion
	h.rs.C.Del("lock::commit")
	if err := h.db.EnsureCacheIsConsistent(); err != nil {
		h.v("recovery-failed", "%v", err)
		return
	}
	h.ingest(1000)
	if err := h.Commit(); err != nil {
		h.v("commit-failed", "%v", err)
		return
	}
	h.checkCoverage()
	run.Sample("history", h.trace)
}

// interrupted is a commit whose connection to the cache breaks for good.
func (h *hist) interrupted(r *rand.Rand) {
	if !h.consistent() || h.cacheID != h.storeID {
		return
	}
	s0, k0 := readStorage(h.dir), readCache(h.rs)
	n := int64(1 + r.Intn(60))
	var cnt atomic.Int64
	h.px.SetDecide(func(int, []string) redisx.Action {
		if cnt.Add(1) >= n {
			return redisx.Action{Kind: redisx.ErrorReply, Text: "ERR injected"}
		}
		return redisx.Action{}
	})
	err := h.Commit()
	h.px.SetDecide(nil)
	h.rs.C.Del(lockKey)
	h.note("commit interrupted at command %d: %v", n, err)
	s1, k1 := readStorage(h.dir), readCache(h.rs)
	h.commits++
	if s1.Epoch != s0.Epoch {
		h.storeID = h.commits
	}
	if k1.Epoch != k0.Epoch {
		h.cacheID = h.commits
	}
	h.checkCoverage()
	h.run.Count("interrupted commits", 1)
}

// c07Restore interrupts the recovery itself at every command.
func c07Restore(run *mon.Run, r *rand.Rand, i int) {
	h := newHist(run, r)
	defer h.Close()
	if len(h.hl) > 1 && i%5 == 0 { // one log under two addresses
		h.hl[1].ID = h.hl[0].ID
	}
	h.ingest(20)
	if err := h.Commit(); err != nil {
		h.v("commit-failed", "%v", err)
		return
	}
	h.ingest(10)
	if err := h.Commit(); err != nil {
		h.v("commit-failed", "%v", err)
		return
	}
	h.ingest(5)
	s0 := readStorage(h.dir)
	if i%2 == 0 {
		h.rs.Flush()
	} else {
		h.rs.C.Set("epoch", 77, 0)
	}
	for n := 1; n < 40; n++ {
		for kind := 0; kind < 3; kind++ {
			if i%2 == 0 {
				h.rs.Flush()
			} else {
				h.rs.C.Set("epoch", 77, 0)
				h.ingest(1)
			}
			h.trace = []string{fmt.Sprintf("recovery interrupted at command %d by fault %d", n, kind)}
			var cnt atomic.Int64
			h.px.SetDecide(func(int, []string) redisx.Action {
				if c := cnt.Add(1); c == int64(n) || (kind == 2 && c > int64(n)) {
					if kind == 1 {
						return redisx.Action{Kind: redisx.ExecError, Text: "ERR injected"}
					}
					return redisx.Action{Kind: redisx.ErrorReply, Text: "ERR injected"}
				}
				return redisx.Action{}
			})
			err := h.db.EnsureCacheIsConsistent()
			h.px.SetDecide(nil)
			done := cnt.Load() < int64(n)
			h.rs.C.Del("lock::commit")
			k1 := readCache(h.rs)
			if err == nil && lstates(k1.Logs) != lstates(s0.Cov) {
				h.v("recovery-positions", "recovery reported success with log states %s instead of %s", lstates(k1.Logs), lstates(s0.Cov))
			}
			if h.consistent() && lstates(k1.Logs) != lstates(s0.Cov) {
				h.v("recovery-partial", "an interrupted recovery passes for complete with log states %s instead of %s", lstates(k1.Logs), lstates(s0.Cov))
			}
			if !h.consistent() {
				tree := treeHash(h.dir)
				if h.Commit() == nil || treeHash(h.dir) != tree {
					h.v("commit-accepted", "a commit was accepted after an interrupted recovery")
					return
				}
			}
			h.rs.C.Del("lock::commit")
			if err := h.db.EnsureCacheIsConsistent(); err != nil || lstates(readCache(h.rs).Logs) != lstates(s0.Cov) || !h.consistent() {
				h.v("recovery-failed", "completing the recovery: %v", err)
			}
			run.Eval(fmt.Sprintf("restore/%d/%d/%v/%v", n, kind, err == nil, len(h.logs)))
			run.Count("interrupted recoveries", 1)
			if done {
				return
			}
		}
	}
}

// c07Fetch starts the real ct-fetch on a consistent or inconsistent state.
func c07Fetch(run *mon.Run, r *rand.Rand, i int) {
	h := newHist(run, r)
	defer h.Close()
	for k := 0; k <= i%3; k++ {
		h.ingest(5 + r.Intn(20))
		if err := h.Commit(); err != nil {
			h.v("commit-failed", "%v", err)
			return
		}
		h.note("commit")
	}
	h.ingest(r.Intn(10))
	switch i % 4 {
	case 0:
		h.note("lose cache")
		h.rs.Flush()
	case 1:
		h.note("foreign epoch")
		h.rs.C.Set("epoch", 100+r.Intn(100), 0)
	case 2:
		h.note("storage one commit ahead")
		h.rs.C.Decr("epoch")
	}
	cons := h.consistent()
	s0, dump, tree := readStorage(h.dir), cacheDump(h.rs), treeHash(h.dir)
	var metas []map[string]any
	for _, l := range h.hl {
		metas = append(metas, map[string]any{"crlite_enrolled": true, "description": "x", "key": "MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEfahLEimAoz2t01p3uMziiLOl/fHTDM0YDOhBRuiBARsV4UvxG2LdNgoIGLrtCzWE0J5APC2em4JlvR8EEEFMoA==",
			"logID": base64.StdEncoding.EncodeToString(l.ID[:]), "mmd": l.MMD, "url": "http://127.0.0.1:9/" + l.Short})
	}
	js, _ := json.Marshal(metas)
	tmp := filepath.Dir(h.dir)
	res := proc.Run(filepath.Join(binDir, "ct-fetch"), []string{"-logtostderr"}, append(proc.BaseEnv(tmp), "redisHost="+h.px.Addr, "certPath="+h.dir,
		"redisTimeout=10s", "ctLogMetadata="+string(js), "runForever=false", "pollingDelay=0", "healthAddr=127.0.0.1:0", "remoteSettingsURL="), tmp, 60*time.Second)
	k1 := readCache(h.rs)
	if treeHash(h.dir) != tree {
		h.v("recovery-wrote-storage", "ct-fetch changed storage")
	}
	if cons {
		if cacheDump(h.rs) != dump {
			h.v("recovery-changed", "ct-fetch (%v) changed a consistent cache", res)
		}
	} else if lstates(k1.Logs) != lstates(s0.Cov) || !h.consistent() {
		h.v("recovery-positions", "after ct-fetch started (%v) log states are %s, storage has %s; cache epoch %q, storage epoch %q; %s", res, lstates(k1.Logs), lstates(s0.Cov), k1.Epoch, s0.Epoch, tail(res.Stderr))
	}
	// and while somebody else holds the lock it must not touch the cache
	if !cons {
		h.rs.C.Set("epoch", 500, 0)
		tok, err := h.direct.AcquireCommitLock()
		if err != nil || tok == nil {
			mon.Infra("lock: %v", err)
		}
		dump := cacheDump(h.rs)
		res := proc.Run(filepath.Join(binDir, "ct-fetch"), []string{"-logtostderr"}, append(proc.BaseEnv(tmp), "redisHost="+h.px.Addr, "certPath="+h.dir,
			"redisTimeout=10s", "ctLogMetadata="+string(js), "runForever=false", "pollingDelay=0", "healthAddr=127.0.0.1:0", "remoteSettingsURL="), tmp, 60*time.Second)
		if cacheDump(h.rs) != dump {
			h.v("recovery-without-lock", "ct-fetch changed the cache while another party held the commit lock")
		}
		if res.Code == 0 {
			h.v("recovery-skipped", "ct-fetch went on although it could not recover: %v", res)
		}
		h.direct.ReleaseCommitLock(*tok)
	}
	run.Eval(fmt.Sprint("fetch", cons, h.trace))
	run.Count("real ct-fetch starts", 1)
}

var _ storage.RemoteCache

package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mozilla/crlite/go/storage"

	"vharness/lib/mon"
	"vharness/lib/proc"
	"vharness/lib/redisx"
)

const lockKey = "lock::commit"

func c08(run *mon.Run) {
	run.Rule = "a case is an interleaving of lock operations of several parties with expirations; distinct cases differ in the operations and where they interleave"
	run.Assume = []string{"redis executes commands atomically"}
	// 1. something happens between any two commands of an operation
	mon.Par(8, run.Pick(300, 3000), func(i int) { c08Interleave(run, run.Rand("il", i), i) })
	// 2. random parties, delays and expirations
	mon.Par(8, run.Pick(40, 600), func(i int) { c08Stress(run, run.Rand("stress", i), i) })
	mon.Par(8, run.Pick(32, 200), func(i int) { c08Abandoned(run, run.Rand("abandoned", i), i) })
	// 3. commits and recoveries without the lock
	mon.Par(8, run.Pick(120, 1500), func(i int) { c08Commit(run, run.Rand("commit", i), i) })
	// 4. the programs
	mon.Par(8, run.Pick(16, 100), func(i int) { c08Programs(run, run.Rand("prog", i), i) })
}

func newCache(addr string) *storage.RedisCache {
	c, err := storage.NewRedisCache(addr, 10*time.Second)
	if err != nil {
		mon.Infra("cache: %v", err)
	}
	return c
}

func holder(rs *redisx.Server) string {
	v, err := rs.C.Get(lockKey).Result()
	if err != nil {
		return ""
	}
	return v
}

// c08Interleave: A performs an operation; between its n-th command and the
// next (or before the first) the lock expires, and may be acquired by B.
func c08Interleave(run *mon.Run, r *rand.Rand, i int) {
	rs := getRedis(run)
	defer func() { rpool.Lock(); rpool.l = append(rpool.l, rs); rpool.Unlock() }()
	px, err := redisx.NewProxy(rs.Addr, nil)
	if err != nil {
		mon.Infra("%v", err)
	}
	defer px.Close()
	a, b := newCache(px.Addr), newCache(rs.Addr)
	op := []string{"release", "acquire", "has", "release-foreign", "release-empty", "release-stale"}[i%6]
	n := (i / 6) % 4 // after how many commands
	after := (i/24)%2 == 1
	event := []string{"expire+acquire", "expire", "acquire", "expire+acquire+release"}[(i/48)%4]
	what := fmt.Sprintf("A %s, %s at command %d (after=%v)", op, event, n, after)
	v := func(key, f string, x ...any) { run.Violation(key, what+": "+fmt.Sprintf(f, x...), nil) }
	var tokA string
	if op == "release" || op == "has" || op == "release-foreign" || op == "release-stale" {
		t, err := a.AcquireCommitLock()
		if err != nil || t == nil {
			v("acquire-failed", "free lock not acquired: %v", err)
			return
		}
		tokA = *t
		if holder(rs) != tokA {
			v("wrong-holder", "acquired but the holder is %q", holder(rs))
		}
		ttl, _ := rs.C.PTTL(lockKey).Result()
		if ttl <= 0 || ttl > 24*time.Hour {
			v("no-expiry", "lock ttl is %v", ttl)
		}
	}
	var tokB string
	fired := false
	fire := func() {
		fired = true
		switch event {
		case "expire":
			rs.C.Del(lockKey)
		case "acquire":
			if t, err := b.AcquireCommitLock(); err == nil && t != nil {
				tokB = *t
			}
		case "expire+acquire", "expire+acquire+release":
			rs.C.Del(lockKey)
			t, err := b.AcquireCommitLock()
			if err != nil || t == nil {
				v("acquire-failed", "B did not get an expired lock: %v", err)
				return
			}
			tokB = *t
			if event == "expire+acquire+release" {
				b.ReleaseCommitLock(tokB)
				if h := holder(rs); h == tokB {
					v("not-released", "released by its holder but still held")
				}
				tokB = ""
			}
		}
	}
	var cnt atomic.Int64
	px.SetDecide(func(conn int, args []string) redisx.Action {
		if cnt.Add(1) == int64(n)+1 {
			if after {
				return redisx.Action{Post: fire}
			}
			return redisx.Action{Pre: fire}
		}
		return redisx.Action{}
	})
	switch op {
	case "release":
		a.ReleaseCommitLock(tokA)
	case "release-foreign":
		a.ReleaseCommitLock("bm90IGEgcmVhbCB0b2tlbg==")
	case "release-empty":
		a.ReleaseCommitLock("")
	case "release-stale":
		rs.C.Del(lockKey)
		t, _ := b.AcquireCommitLock()
		if t != nil {
			tokB = *t
		}
		a.ReleaseCommitLock(tokA)
	case "acquire":
		t, err := a.AcquireCommitLock()
		if t != nil && err == nil {
			tokA = *t
		}
	case "has":
		has, err := a.HasCommitLock(tokA)
		if err == nil && !has && !fired {
			v("holder-denied", "the holder was told it does not hold the lock")
		}
		if has2, err := a.HasCommitLock("nonsense" + tokA); err == nil && has2 {
			v("stranger-accepted", "a wrong token was accepted")
		}
		if has2, err := a.HasCommitLock(""); err == nil && has2 {
			v("stranger-accepted", "the empty token was accepted")
		}
	}
	px.SetDecide(nil)
	h := holder(rs)
	if tokB != "" && h != tokB && event == "expire" && op == "release-stale" && fired {
		// the event itself took B's lock away
	} else if tokB != "" && h != tokB && !(op == "acquire" && h == tokA && tokA != tokB && event == "expire") {
		v("freed-by-other", "B's lock is gone (holder %q)", h)
	}
	if tokA != "" && tokB != "" && tokA == tokB {
		v("same-token", "two acquisitions returned the same token")
	}
	if op == "acquire" && tokA != "" && tokB != "" && event == "acquire" {
		v("two-holders", "both acquired the lock")
	}
	if op == "release" && tokB == "" && h != "" {
		v("not-released", "nobody holds the lock but it is taken by %q", h)
	}
	if (op == "release-foreign") && event != "expire" && !fired && h != tokA {
		v("freed-by-other", "a wrong token freed A's lock")
	}
	// once free, immediately available
	if h == "" {
		t, err := b.AcquireCommitLock()
		if err != nil || t == nil {
			v("acquire-failed", "free lock not available: %v", err)
		}
	}
	run.Eval(fmt.Sprintf("il/%s/%v/%s", op, fired, what))
	run.Count("interleavings", 1)
	if fired {
		run.Count("interleavings with an event inside", 1)
	}
}

// c08Stress: parties acquire, use and release; a party counts as holder from
// the return of its acquisition until it starts releasing or the lock expires.
func c08Stress(run *mon.Run, r *rand.Rand, i int) {
	rs := getRedis(run)
	defer func() { rpool.Lock(); rpool.l = append(rpool.l, rs); rpool.Unlock() }()
	var rmu sync.Mutex
	delay := func(int, []string) redisx.Action {
		rmu.Lock()
		defer rmu.Unlock()
		a := redisx.Action{}
		if r.Intn(2) == 0 {
			a.Delay = time.Duration(r.Intn(1500)) * time.Microsecond
		}
		if r.Intn(2) == 0 {
			a.After = time.Duration(r.Intn(1500)) * time.Microsecond
		}
		return a
	}
	px, err := redisx.NewProxy(rs.Addr, delay)
	if err != nil {
		mon.Infra("%v", err)
	}
	defer px.Close()
	var mu sync.Mutex
	holding := map[string]string{} // token -> party, from acquired to releasing
	seen := map[string]bool{}
	n, acq, exp := 3+i%4, 0, 0
	stop := time.Now().Add(time.Duration(run.Pick(250, 1200)) * time.Millisecond)
	var wg sync.WaitGroup
	for p := 0; p < n; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			name := fmt.Sprintf("party %d", p)
			pr := run.Rand("party", i, p)
			c := newCache(px.Addr)
			var stale []string
			for time.Now().Before(stop) {
				t, err := c.AcquireCommitLock()
				if len(stale) > 0 && pr.Intn(3) == 0 { // an old token again
					c.ReleaseCommitLock(stale[pr.Intn(len(stale))])
				}
				if err != nil || t == nil {
					continue
				}
				mu.Lock()
				if seen[*t] {
					run.Violation("same-token", "token returned twice", nil)
				}
				seen[*t] = true
				for tok, o := range holding {
					run.Violation("two-holders", fmt.Sprintf("%s acquired %s while %s holds %s", name, *t, o, tok), nil)
				}
				holding[*t] = name
				acq++
				mu.Unlock()
				time.Sleep(time.Duration(pr.Intn(2000)) * time.Microsecond)
				mu.Lock()
				_, still := holding[*t]
				if still {
					if h := holder(rs); h != *t {
						run.Violation("freed-by-other", fmt.Sprintf("%s holds %s but the lock is %q", name, *t, h), nil)
					}
					if pr.Intn(4) == 0 { // the lock expires while held
						delete(holding, *t)
						rs.C.Del(lockKey)
						exp++
						still = false
					}
				}
				delete(holding, *t)
				mu.Unlock()
				if has, err := c.HasCommitLock(*t); err == nil && still && !has {
					run.Violation("holder-denied", name+" was denied", nil)
				}
				c.ReleaseCommitLock(*t)
				stale = append(stale, *t)
			}
		}(p)
	}
	wg.Wait()
	px.SetDecide(nil)
	if h := holder(rs); h != "" {
		run.Violation("not-released", "everybody released but the lock is taken", nil)
	}
	run.Eval(fmt.Sprintf("stress/%d/%d/%d", n, acq, exp))
	run.Count("stress acquisitions", acq)
	run.Count("stress expirations", exp)
}

// c08Abandoned: an abandoned lock (close to its expiry) becomes free whatever
// the other parties do meanwhile.
func c08Abandoned(run *mon.Run, r *rand.Rand, i int) {
	w := crashWorld(run, "c08a", i, i%2)
	defer w.Close()
	what := []string{"acquire", "release with another token", "has with another token", "commit with another token", "recovery", "commit program", "aggregate-known", "everything"}[i%8]
	a, b := newCache(w.rs.Addr), newCache(w.rs.Addr)
	old, _ := a.AcquireCommitLock()
	if old == nil {
		mon.Infra("lock")
	}
	w.rs.C.Del(lockKey)
	t, err := a.AcquireCommitLock()
	if t == nil || err != nil {
		run.Violation("acquire-failed", fmt.Sprintf("free lock: %v", err), nil)
		return
	}
	w.rs.C.PExpire(lockKey, 400*time.Millisecond)
	if what == "recovery" {
		w.rs.C.Set("epoch", 4711, 0)
	}
	tmp := filepath.Dir(w.dir)
	n := 0
	for end := time.Now().Add(5 * time.Second); ; {
		h := holder(w.rs)
		if h != *t {
			break
		}
		if time.Now().After(end) {
			ttl, _ := w.rs.C.PTTL(lockKey).Result()
			run.Violation("never-expires", fmt.Sprintf("abandoned lock with 400ms to live is still there after 5s of %s by others (ttl %v)", what, ttl), nil)
			return
		}
		n++
		k := i % 8
		if k == 7 {
			k = r.Intn(5)
		}
		switch k {
		case 0:
			if x, err := b.AcquireCommitLock(); err == nil && x != nil {
				b.ReleaseCommitLock(*x)
			}
		case 1:
			b.ReleaseCommitLock([]string{"", "x", *old}[n%3])
		case 2:
			b.HasCommitLock([]string{"", "x", *old}[n%3])
		case 3:
			w.db.Commit([]string{"", "x", *old}[n%3])
		case 4:
			w.db.EnsureCacheIsConsistent()
		case 5:
			w.runCommit(tmp)
		case 6:
			proc.Run(filepath.Join(binDir, "aggregate-known"), []string{"-logtostderr"}, append(proc.BaseEnv(tmp), "redisHost="+w.rs.Addr, "certPath="+w.dir, "redisTimeout=10s"), tmp, 60*time.Second)
		}
		time.Sleep(10 * time.Millisecond)
	}
	if x, err := b.AcquireCommitLock(); (err != nil || x == nil) && holder(w.rs) == "" {
		run.Violation("acquire-failed", fmt.Sprintf("after an abandoned lock had expired: %v", err), nil)
	}
	run.Eval(fmt.Sprintf("abandoned/%s/%d", what, n/10))
	run.Count("abandoned locks watched until free", 1)
}

// c08Commit: a commit needs the caller's current token.
func c08Commit(run *mon.Run, r *rand.Rand, i int) {
	w := crashWorld(run, "c08", i, i%2)
	defer w.Close()
	tree, dump := treeHash(w.dir), cacheDump(w.rs)
	kind := []string{"never acquired", "empty token", "released", "expired", "expired and taken", "held by other", "expires before the check", "lock unreadable"}[i%8]
	tok := "never"
	get := func() string {
		t, err := w.cache.AcquireCommitLock()
		if err != nil || t == nil {
			mon.Infra("lock: %v", err)
		}
		return *t
	}
	var other string
	switch kind {
	case "empty token":
		tok = ""
	case "released":
		tok = get()
		w.cache.ReleaseCommitLock(tok)
	case "expired", "expired and taken":
		tok = get()
		w.rs.C.PExpire(lockKey, time.Millisecond)
		time.Sleep(20 * time.Millisecond)
		if kind == "expired and taken" {
			other = get()
		}
	case "held by other":
		other = get()
	case "expires before the check":
		tok = get()
		var once sync.Once
		w.px.SetDecide(func(int, []string) redisx.Action {
			return redisx.Action{Pre: func() { once.Do(func() { w.rs.C.Del(lockKey) }) }}
		})
	case "lock unreadable":
		tok = get()
		w.px.SetDecide(func(_ int, args []string) redisx.Action {
			if len(args) > 1 && args[1] == lockKey {
				return redisx.Action{Kind: redisx.ErrorReply, Text: "ERR injected"}
			}
			return redisx.Action{}
		})
	}
	err := w.db.Commit(tok)
	w.px.SetDecide(nil)
	if err == nil {
		run.Violation("commit-without-lock", kind+": the commit went ahead", nil)
	}
	if treeHash(w.dir) != tree || cacheDump(w.rs) != dump {
		run.Violation("commit-without-lock", kind+": storage or cache changed", nil)
	}
	if other != "" && holder(w.rs) != other {
		run.Violation("freed-by-other", kind+": the other party's lock is gone", nil)
	}
	// recovery while somebody else holds the lock
	if i%2 == 1 {
		w.rs.C.Del(lockKey)
		w.rs.C.Set("epoch", 999, 0)
		other := get()
		dump := cacheDump(w.rs)
		if err := w.db.EnsureCacheIsConsistent(); err == nil {
			run.Violation("recovery-without-lock", "recovery succeeded while another party held the lock", nil)
		}
		if cacheDump(w.rs) != dump || treeHash(w.dir) != tree {
			run.Violation("recovery-without-lock", "recovery changed the cache while another party held the lock", nil)
		}
		if holder(w.rs) != other {
			run.Violation("freed-by-other", "recovery freed another party's lock", nil)
		}
		w.cache.ReleaseCommitLock(other)
		if err := w.db.EnsureCacheIsConsistent(); err != nil {
			run.Violation("recovery-failed", fmt.Sprintf("with the lock free: %v", err), nil)
		}
		if h := holder(w.rs); h != "" {
			run.Violation("not-released", "recovery kept the lock", nil)
		}
	}
	run.Eval(fmt.Sprintf("commit/%s/%d", kind, len(w.logs)))
	run.Count("commits without the lock", 1)
}

// c08Programs: the commit program takes the lock before it changes anything,
// frees it whatever happens, and a killed one leaves a lock that expires.
func c08Programs(run *mon.Run, r *rand.Rand, i int) {
	w := crashWorld(run, "c08p", i, i%2)
	defer w.Close()
	tmp := filepath.Dir(w.dir)
	tree, dump := treeHash(w.dir), cacheDump(w.rs)
	switch i % 4 {
	case 0: // held by another party
		t, _ := w.direct.AcquireCommitLock()
		res := w.runCommit(tmp)
		if res.Code == 0 || treeHash(w.dir) != tree || cacheDump(w.rs) != dump {
			run.Violation("commit-without-lock", fmt.Sprintf("program ran (%v) while the lock was held", res), nil)
		}
		if holder(w.rs) != *t {
			run.Violation("freed-by-other", "the program freed another party's lock", nil)
		}
	case 1: // failing commit
		w.rs.C.Set("epoch", 12345, 0)
		res := w.runCommit(tmp)
		if res.Code == 0 {
			run.Violation("commit-accepted", fmt.Sprintf("inconsistent state: %v", res), nil)
		}
		if h := holder(w.rs); h != "" {
			run.Violation("not-released", "a failed commit kept the lock", nil)
		}
	case 2: // killed in the middle
		var cnt atomic.Int64
		n := int64(4 + r.Intn(8))
		w.px.SetDecide(func(int, []string) redisx.Action {
			if cnt.Add(1) == n {
				return redisx.Action{Kind: redisx.Drop, Pre: func() { w.killCommit() }}
			}
			return redisx.Action{}
		})
		res := w.runCommitKillable(tmp)
		w.px.SetDecide(nil)
		if h := holder(w.rs); h != "" {
			ttl, _ := w.rs.C.PTTL(lockKey).Result()
			if ttl <= 0 || ttl > 24*time.Hour {
				run.Violation("no-expiry", fmt.Sprintf("abandoned lock ttl %v", ttl), nil)
			}
			if res2 := w.runCommit(tmp); res2.Code == 0 {
				run.Violation("commit-without-lock", "a second commit ran while the lock was still abandoned", nil)
			}
			w.rs.C.PExpire(lockKey, time.Millisecond)
			time.Sleep(20 * time.Millisecond)
			run.Count("abandoned locks", 1)
		}
		_ = res
		if err := w.db.EnsureCacheIsConsistent(); err != nil {
			run.Violation("recovery-failed", err.Error(), nil)
		}
		if res := w.runCommit(tmp); res.Code != 0 {
			run.Violation("acquire-failed", fmt.Sprintf("after expiry: %v %s", res, tail(res.Stderr)), nil)
		}
	case 3: // two programs at once
		w.px.SetDecide(func(int, []string) redisx.Action {
			return redisx.Action{Delay: time.Millisecond}
		})
		b := w.capture()
		var rs [2]proc.Result
		var wg sync.WaitGroup
		for k := range rs {
			wg.Add(1)
			go func() { defer wg.Done(); rs[k] = w.runCommit(tmp) }()
		}
		wg.Wait()
		w.px.SetDecide(nil)
		if rs[0].Code != 0 && rs[1].Code != 0 {
			run.Violation("acquire-failed", fmt.Sprintf("two commits at once, both failed: %v %v", rs[0], rs[1]), nil)
		}
		w.checkCrash("two commits at once", b, true)
		if h := holder(w.rs); h != "" {
			run.Violation("not-released", "two commits at once kept the lock", nil)
		}
	}
	run.Eval(fmt.Sprintf("prog/%d/%d", i%4, i))
	run.Count("program runs", 1)
}

package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vharness/lib/mon"
	"vharness/lib/proc"
	"vharness/lib/redisx"
)

func (w *W) commitEnv(tmp string) []string {
	return append(proc.BaseEnv(tmp), "redisHost="+w.px.Addr, "certPath="+w.dir, "redisTimeout=10s", "TMPDIR="+tmp)
}

func (w *W) runCommit(tmp string) proc.Result {
	return proc.Run(filepath.Join(binDir, "commit"), []string{"-logtostderr"}, w.commitEnv(tmp), tmp, 60*time.Second)
}

// before a commit that will be disturbed
type before struct {
	s0   *Storage
	k0   *Cache
	tree string
	dump string
}

func (w *W) capture() before {
	return before{readStorage(w.dir), readCache(w.rs), treeHash(w.dir), cacheDump(w.rs)}
}

// checkCrash checks what must hold right after a commit ended in any way.
func (w *W) checkCrash(what string, b before, success bool) (string, *Storage, *Cache) {
	s1, k1 := readStorage(w.dir), readCache(w.rs)
	v := func(key, f string, a ...any) { w.run.Violation(key, what+": "+fmt.Sprintf(f, a...), nil) }
	for _, p := range s1.Problems {
		v("storage-unreadable", "%s", p)
	}
	for _, d := range s1.Dups {
		v("duplicate", "%s", d)
	}
	oldCov, newCov := lstates(b.s0.Cov), lstates(b.k0.Logs)
	cov := "old"
	if lstates(s1.Cov) == newCov && (s1.HasCov || len(b.k0.Logs) == 0) {
		cov = "new"
	}
	if newCov == oldCov && b.s0.HasCov == s1.HasCov {
		cov = "same"
	}
	if cov == "old" && (lstates(s1.Cov) != oldCov || s1.HasCov != b.s0.HasCov) {
		v("coverage-torn", "coverage is neither the old nor the new one: %s", s1.CovRaw)
	}
	if success && cov == "old" {
		v("false-success", "the commit reported success but did not publish the coverage")
	}
	moved := 0
	for _, bin := range allBins(b.s0.Bins, b.k0.Bins, s1.Bins, k1.Bins) {
		covd := coveredSerials(b.k0.Logs, b.k0.Bins[bin])
		cached := Set{}
		for m := range k1.Bins[bin] {
			cached[serialOf(m)] = true
			if !b.k0.Bins[bin][m] {
				v("invented", "%s: cached member %s was not there before", bin.Key(), hx(m))
			}
		}
		for ser := range b.s0.Bins[bin] {
			if !s1.Bins[bin][ser] {
				v("lost", "%s: stored serial %s disappeared", bin.Key(), hx(ser))
			}
		}
		for m := range b.k0.Bins[bin] {
			ser := serialOf(m)
			if !s1.Bins[bin][ser] && !k1.Bins[bin][m] {
				v("lost", "%s: recorded serial %s is in neither cache nor storage", bin.Key(), hx(ser))
			}
			if !covered(b.k0.Logs, m) && !k1.Bins[bin][m] {
				v("uncovered-removed", "%s: uncovered entry %s left the cache", bin.Key(), hx(m))
			}
		}
		for ser := range s1.Bins[bin] {
			if b.s0.Bins[bin][ser] {
				continue
			}
			moved++
			if !covd[ser] {
				v("invented", "%s: serial %s was stored without being covered", bin.Key(), hx(ser))
			}
		}
		if cov != "old" && s1.HasCov {
			for ser := range covd {
				if !s1.Bins[bin][ser] {
					v("coverage-ahead", "%s: the published coverage covers serial %s, which is not stored", bin.Key(), hx(ser))
				}
			}
		}
	}
	return fmt.Sprintf("cov=%s moved=%d cached=%d epoch=%q/%q lock=%v", cov, moved, k1.N(), strings.TrimSpace(s1.Epoch), k1.Epoch, k1.Lock != ""), s1, k1
}

// recover runs recovery and a commit, and compares with an undisturbed run.
func (w *W) recover(what string, b before) {
	v := func(key, f string, a ...any) { w.run.Violation(key, what+": "+fmt.Sprintf(f, a...), nil) }
	w.px.SetDecide(nil)
	w.rs.C.Del("lock::commit") // the lock of a killed commit expires
	if err := w.db.EnsureCacheIsConsistent(); err != nil {
		v("no-recovery", "recovery failed: %v", err)
		return
	}
	if err := w.Commit(); err != nil {
		v("no-recovery", "commit after recovery failed: %v", err)
		return
	}
	s2, k2 := readStorage(w.dir), readCache(w.rs)
	for _, p := range append(s2.Problems, s2.Dups...) {
		v("storage-unreadable", "after recovery: %s", p)
	}
	if lstates(s2.Cov) != lstates(b.k0.Logs) {
		v("recovered-coverage", "coverage after recovery is %s, an uninterrupted commit publishes %s", lstates(s2.Cov), lstates(b.k0.Logs))
	}
	for _, bin := range allBins(b.s0.Bins, b.k0.Bins, s2.Bins, k2.Bins) {
		want := union(b.s0.Bins[bin], coveredSerials(b.k0.Logs, b.k0.Bins[bin]))
		if d := diff(want, s2.Bins[bin]); d != "" {
			v("recovered-stored", "bin %s after recovery: %s", bin.Key(), d)
		}
		rest := Set{}
		for m := range b.k0.Bins[bin] {
			if !covered(b.k0.Logs, m) {
				rest[m] = true
			}
		}
		if d := diff(rest, k2.Bins[bin]); d != "" {
			v("recovered-cached", "bin %s after recovery: %s", bin.Key(), d)
		}
	}
}

// crashWorld prepares an installation in which a commit has work to do, on top
// of |prior| earlier commits.
func crashWorld(run *mon.Run, seed string, i, prior int) *W {
	r := run.Rand(seed, i)
	w := NewW(run, r)
	if len(w.issuers) > 2 {
		w.issuers = w.issuers[:2]
	}
	if len(w.exps) > 2 {
		w.exps = w.exps[:2]
	}
	for k := 0; k <= prior; k++ {
		if err := w.Put(w.Make(20 + r.Intn(60))); err != nil {
			mon.Infra("store: %v", err)
		}
		w.SaveLogs()
		if k < prior {
			if err := w.Commit(); err != nil {
				run.Violation("commit-failed", fmt.Sprintf("preparing: %v", err), nil)
			}
			for _, l := range w.logs {
				l.Max += 1 + uint64(r.Intn(100000000))
				l.MaxE += 1 + uint64(r.Intn(500))
			}
		}
	}
	return w
}

func tmpFor(run *mon.Run, w *W, i int) (string, func()) {
	base := filepath.Dir(w.dir)
	if i%3 == 0 { // temporary files on another file system
		if d, err := os.MkdirTemp("/dev/shm", "vh-st"); err == nil {
			return d, func() { os.RemoveAll(d) }
		}
	}
	d, _ := os.MkdirTemp(base, "tmp")
	return d, func() {}
}

func c06(run *mon.Run) {
	run.Level = "fault_enumeration"
	run.Rule = "a case is a disturbed commit; distinct cases differ in fault, place, and the state it left behind"
	run.Assume = []string{"renames are atomic and fsynced data survives (no power-loss model)", "killed processes lose nothing they handed to the kernel"}
	states := map[string]int{}
	var smu sync.Mutex
	note := func(kind, st string) {
		smu.Lock()
		states[kind+" "+st]++
		smu.Unlock()
	}
	one := func(kind string, wi, prior int, n int, act func(w *W, hit *atomic.Bool) func(int, []string) redisx.Action, wrap func(w *W, tmp string) proc.Result) bool {
		w := crashWorld(run, "crash", wi, prior)
		defer w.Close()
		tmp, done := tmpFor(run, w, wi)
		defer done()
		b := w.capture()
		var hit atomic.Bool
		if act != nil {
			w.px.SetDecide(act(w, &hit))
		}
		res := wrap(w, tmp)
		what := fmt.Sprintf("%s world=%d prior=%d n=%d (%v)", kind, wi, prior, n, res)
		if res.TimedOut {
			run.Violation("hang", what+": did not end", nil)
			return false
		}
		if res.Crashed() {
			run.Violation("crash", what+": "+res.Stderr, nil)
			return false
		}
		st, _, _ := w.checkCrash(what, b, res.Code == 0)
		w.recover(what, b)
		run.Eval(fmt.Sprintf("%s/%d/%s/%v", kind, n, st, res.Code))
		run.Count(kind, 1)
		note(kind, st)
		return hit.Load() || act == nil
	}
	// 1. every redis command: killed before it, killed after it, error instead
	// of it, error after it, connection dropped before and after it
	worlds := run.Pick(4, 40)
	kinds := []string{"kill before command", "kill after command", "error instead of command", "error after command", "drop before command", "drop after command"}
	type job struct {
		kind, world, prior, n int
	}
	var jobs []job
	for wi := 0; wi < worlds; wi++ {
		prior := []int{0, 1, 2, 1}[wi%4]
		// count the commands of an undisturbed commit
		w := crashWorld(run, "crash", wi, prior)
		var cnt atomic.Int64
		w.px.SetDecide(func(int, []string) redisx.Action { cnt.Add(1); return redisx.Action{} })
		tmp, done := tmpFor(run, w, wi)
		b := w.capture()
		res := w.runCommit(tmp)
		if res.Code != 0 {
			run.Violation("commit-failed", fmt.Sprintf("undisturbed commit program: %v %s", res, tail(res.Stderr)), nil)
		} else {
			w.verifyCommit("program", b.s0, b.k0)
			if readCache(w.rs).Lock != "" {
				run.Violation("lock-kept", "an undisturbed commit left the lock behind", nil)
			}
		}
		done()
		w.Close()
		for k := range kinds {
			for n := 1; n <= int(cnt.Load())+1; n++ {
				jobs = append(jobs, job{k, wi, prior, n})
			}
		}
	}
	mon.Par(8, len(jobs), func(j int) {
		x := jobs[j]
		one(kinds[x.kind], x.world, x.prior, x.n, func(w *W, hit *atomic.Bool) func(int, []string) redisx.Action {
			var cnt atomic.Int64
			return func(conn int, args []string) redisx.Action {
				if cnt.Add(1) != int64(x.n) {
					return redisx.Action{}
				}
				hit.Store(true)
				kill := func() { w.killCommit() }
				switch x.kind {
				case 0:
					return redisx.Action{Kind: redisx.Drop, Pre: kill}
				case 1:
					return redisx.Action{Kind: redisx.ExecDrop, Post: kill}
				case 2:
					return redisx.Action{Kind: redisx.ErrorReply, Text: "ERR injected"}
				case 3:
					return redisx.Action{Kind: redisx.ExecError, Text: "ERR injected"}
				case 4:
					return redisx.Action{Kind: redisx.Drop}
				}
				return redisx.Action{Kind: redisx.ExecDrop}
			}
		}, func(w *W, tmp string) proc.Result { return w.runCommitKillable(tmp) })
	})
	// 2. killed at a random moment between commands
	mon.Par(8, run.Pick(120, 3000), func(j int) {
		r := run.Rand("moment", j)
		n, d := 3+r.Intn(25), time.Duration(r.Intn(2500))*time.Microsecond
		one("kill between commands", 100+j%20, j%3, n, func(w *W, hit *atomic.Bool) func(int, []string) redisx.Action {
			var cnt atomic.Int64
			return func(conn int, args []string) redisx.Action {
				if cnt.Add(1) != int64(n) {
					return redisx.Action{}
				}
				return redisx.Action{Post: func() { go func() { time.Sleep(d); w.killCommit() }() }}
			}
		}, func(w *W, tmp string) proc.Result { return w.runCommitKillable(tmp) })
	})
	// 3. file operations failing, or killed at one
	if stracable() {
		calls := []string{"renameat", "renameat2", "fsync", "openat", "write", "unlinkat", "mkdirat", "close", "getdents64", "read", "newfstatat"}
		var sj []string
		for _, c := range calls {
			for n := 1; n <= run.Pick(6, 16); n++ {
				for _, e := range []string{"signal=SIGKILL", "error=EIO", "error=ENOSPC"} {
					if e == "error=ENOSPC" && c != "openat" && c != "mkdirat" {
						continue
					}
					if (c == "read" || c == "write") && e != "signal=SIGKILL" || c == "close" && e != "signal=SIGKILL" {
						continue // also used by the runtime and network
					}
					sj = append(sj, fmt.Sprintf("%s:%s:when=%d", c, e, n))
					if e != "signal=SIGKILL" && n == 1 && c != "openat" && c != "newfstatat" {
						sj = append(sj, fmt.Sprintf("%s:%s:when=1+", c, e))
					}
				}
			}
		}
		mon.Par(8, len(sj), func(j int) {
			inj := sj[j]
			kind := "file operation " + strings.Split(inj, ":")[0] + " " + strings.Split(inj, ":")[1]
			one(kind, 200+j%10, j%3, 0, nil, func(w *W, tmp string) proc.Result {
				return proc.Run("strace", []string{"-f", "-qq", "-o", "/dev/null", "-e", "trace=" + strings.Split(inj, ":")[0], "-e", "inject=" + inj,
					filepath.Join(binDir, "commit"), "-logtostderr"}, append(w.commitEnv(tmp), "GOMAXPROCS=2"), tmp, 60*time.Second)
			})
		})
	} else {
		run.Count("strace not permitted: file operation faults skipped", 1)
	}
	// 4. several interruptions in a row, then recovery
	mon.Par(8, run.Pick(60, 1500), func(j int) {
		r := run.Rand("multi", j)
		w := crashWorld(run, "multi", j%12, j%3)
		defer w.Close()
		tmp, done := tmpFor(run, w, j)
		defer done()
		b := w.capture()
		var trace []string
		for k := 0; k < 2+r.Intn(3); k++ {
			n, kind := 1+r.Intn(30), r.Intn(4)
			var cnt atomic.Int64
			w.px.SetDecide(func(conn int, args []string) redisx.Action {
				if cnt.Add(1) != int64(n) {
					return redisx.Action{}
				}
				switch kind {
				case 0:
					return redisx.Action{Kind: redisx.Drop, Pre: func() { w.killCommit() }}
				case 1:
					return redisx.Action{Kind: redisx.ExecDrop, Post: func() { w.killCommit() }}
				case 2:
					return redisx.Action{Kind: redisx.ErrorReply, Text: "ERR injected"}
				}
				return redisx.Action{Kind: redisx.ExecError, Text: "ERR injected"}
			})
			res := w.runCommitKillable(tmp)
			w.px.SetDecide(nil)
			st, _, _ := w.checkCrash(fmt.Sprintf("interruption %d %v", k, trace), b, res.Code == 0)
			trace = append(trace, fmt.Sprintf("%d@%d:%s", kind, n, st))
			w.rs.C.Del("lock::commit")
			if r.Intn(2) == 0 { // recovery in between, interrupted too
				m := 1 + r.Intn(8)
				cnt.Store(0)
				w.px.SetDecide(func(conn int, args []string) redisx.Action {
					if cnt.Add(1) == int64(m) {
						return redisx.Action{Kind: redisx.ErrorReply, Text: "ERR injected"}
					}
					return redisx.Action{}
				})
				w.db.EnsureCacheIsConsistent()
				w.px.SetDecide(nil)
				w.rs.C.Del("lock::commit")
			}
		}
		if k := readCache(w.rs); len(k.Logs) != len(b.k0.Logs) {
			// recovery was interrupted half-way: it has to be completed first
			if err := w.db.EnsureCacheIsConsistent(); err != nil {
				run.Violation("no-recovery", fmt.Sprintf("%v: %v", trace, err), nil)
				return
			}
		}
		w.recoverMulti(fmt.Sprintf("after %v", trace), b)
		run.Eval(fmt.Sprint("multi/", trace))
		run.Count("several interruptions", 1)
	})
	run.Extra("crash_states", states)
	run.Count("distinct states left behind", len(states))
}

// recoverMulti is recover, except that a restored cache may have gone back to
// the coverage in storage if a recovery already happened.
func (w *W) recoverMulti(what string, b before) {
	v := func(key, f string, a ...any) { w.run.Violation(key, what+": "+fmt.Sprintf(f, a...), nil) }
	w.px.SetDecide(nil)
	w.rs.C.Del("lock::commit")
	if err := w.db.EnsureCacheIsConsistent(); err != nil {
		v("no-recovery", "recovery failed: %v", err)
		return
	}
	cov := readCache(w.rs).Logs
	if lstates(cov) != lstates(b.k0.Logs) && lstates(cov) != lstates(b.s0.Cov) {
		v("recovered-coverage", "log states after recovery are %s", lstates(cov))
	}
	if err := w.Commit(); err != nil {
		v("no-recovery", "commit after recovery failed: %v", err)
		return
	}
	s2, k2 := readStorage(w.dir), readCache(w.rs)
	for _, p := range append(s2.Problems, s2.Dups...) {
		v("storage-unreadable", "after recovery: %s", p)
	}
	if lstates(s2.Cov) != lstates(cov) {
		v("recovered-coverage", "published %s, had %s", lstates(s2.Cov), lstates(cov))
	}
	for _, bin := range allBins(b.s0.Bins, b.k0.Bins, s2.Bins, k2.Bins) {
		for m := range b.k0.Bins[bin] {
			ser := serialOf(m)
			if covered(cov, m) && !s2.Bins[bin][ser] {
				v("coverage-ahead", "%s: %s is covered and not stored", bin.Key(), hx(ser))
			}
			if !s2.Bins[bin][ser] && !k2.Bins[bin][m] {
				v("lost", "%s: %s", bin.Key(), hx(ser))
			}
		}
		for ser := range b.s0.Bins[bin] {
			if !s2.Bins[bin][ser] {
				v("lost", "%s: stored %s", bin.Key(), hx(ser))
			}
		}
	}
}

var procs sync.Map // *W -> *proc.Proc

func (w *W) killCommit() {
	if p, ok := procs.Load(w); ok {
		p.(*proc.Proc).Kill(syscall.SIGKILL)
	}
}

func (w *W) runCommitKillable(tmp string) proc.Result {
	p, err := proc.Start(filepath.Join(binDir, "commit"), []string{"-logtostderr"}, w.commitEnv(tmp), tmp)
	if err != nil {
		mon.Infra("start commit: %v", err)
	}
	procs.Store(w, p)
	defer procs.Delete(w)
	return p.Wait(60 * time.Second)
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}

var stracableOnce sync.Once
var stracableRes bool

// stracable: may we trace our own children here?
func stracable() bool {
	stracableOnce.Do(func() {
		out, err := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=openat", "-e", "inject=openat:error=EIO:when=1000", "true").CombinedOutput()
		stracableRes = err == nil && len(out) == 0
	})
	return stracableRes
}

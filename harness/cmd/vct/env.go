package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"

	"vharness/lib/ctsrv"
	"vharness/lib/mon"
	"vharness/lib/proc"
	"vharness/lib/redisx"
)

var binDir = os.Getenv("VH_BIN")

// Env is one isolated ct-fetch installation: redis, storage, log server.
type Env struct {
	run   *mon.Run
	name  string
	r     *rand.Rand
	dir   string
	rs    *redisx.Server
	past  map[string][]types.CTLogState // states seen so far, per key
	px    *redisx.Proxy
	srv   *ctsrv.Server
	w     *ctsrv.World
	cache *storage.RedisCache
	db    storage.CertDatabase
	logs  []*LogInfo
	batch uint64
	bin   string
	extra []string // extra environment
	meta  func(l *LogInfo) map[string]any

	lastRun  proc.Result
	runs     int
	cmdCount atomic.Int64
	cmdMax   int64
	lastMeta string
	// expectLoss: states may regress (never set for C01-C03).
	checkC04 bool
}

type LogInfo struct {
	*ctsrv.Log
	Enrolled bool
	Heads    [][2]uint64 // published (size, timestamp)
	Prev     *types.CTLogState
	Hist     []string
	Limit    int64 // this entry must never be claimed, nor (tiled) those above it (-1: none)
	OldLimit int64
	Done     bool
	Reach    uint64 // healthy runs must ingest down to here
}

var pool struct {
	sync.Mutex
	rs []*redisx.Server
}

func getRedis(run *mon.Run) *redisx.Server {
	pool.Lock()
	if n := len(pool.rs); n > 0 {
		s := pool.rs[n-1]
		pool.rs = pool.rs[:n-1]
		pool.Unlock()
		if err := s.Flush(); err != nil {
			mon.Infra("flush: %v", err)
		}
		return s
	}
	pool.Unlock()
	s, err := redisx.Start(run.Scratch)
	if err != nil {
		mon.Infra("redis: %v", err)
	}
	return s
}

func NewEnv(run *mon.Run, name string, batch uint64) *Env {
	e := &Env{run: run, name: name, r: run.Rand(name), batch: batch, bin: "ct-fetch"}
	d, err := os.MkdirTemp(run.Scratch, "env")
	if err != nil {
		mon.Infra("%v", err)
	}
	e.dir = d
	e.rs = getRedis(run)
	e.srv, err = ctsrv.NewServer()
	if err != nil {
		mon.Infra("%v", err)
	}
	e.px, err = redisx.NewProxy(e.rs.Addr, nil)
	if err != nil {
		mon.Infra("%v", err)
	}
	e.w = ctsrv.NewWorld(e.r, 2+e.r.Intn(5))
	e.cache, err = storage.NewRedisCache(e.rs.Addr, 10*time.Second)
	if err != nil {
		mon.Infra("redis cache: %v", err)
	}
	e.db, err = storage.NewCertDatabase(e.cache, filepath.Join(e.dir, "certs"), true)
	if err != nil {
		mon.Infra("db: %v", err)
	}
	return e
}

func (e *Env) Close() {
	e.px.Close()
	e.srv.Close()
	pool.Lock()
	pool.rs = append(pool.rs, e.rs)
	pool.Unlock()
	os.RemoveAll(e.dir)
}

func (e *Env) AddLog(tiled bool, mmd uint64) *LogInfo {
	l := &LogInfo{Log: e.srv.NewLog(tiled, mmd), Enrolled: true, Limit: -1}
	e.logs = append(e.logs, l)
	return l
}

// Grow appends n random entries with increasing-ish timestamps.
func (e *Env) Grow(l *LogInfo, n int, ts func(i int) uint64) {
	es := make([]*ctsrv.Entry, n)
	base := len(l.Entries)
	for i := range es {
		k := e.w.RandomKind()
		if e.r.Intn(6) == 0 && k != ctsrv.Expired && k != ctsrv.ExpiredPrecert && k != ctsrv.SelfSigned {
			es[i] = e.shaped(k, ts(base+i))
		} else {
			es[i] = e.w.New(k, ts(base+i))
		}
	}
	l.Append(es...)
}

// NormalTS gives realistic timestamps ending about an hour ago.
func (e *Env) NormalTS(l *LogInfo) func(int) uint64 {
	base := uint64(e.w.Base.UnixMilli()) - 1000*3600*1000
	return func(i int) uint64 { return base + uint64(i)*1000 + uint64(e.r.Intn(5000)) }
}

func (l *LogInfo) Pub(size uint64, ts uint64) {
	l.Publish(size, ts)
	l.Heads = append(l.Heads, [2]uint64{size, ts})
}

// PubAll publishes everything, with a head timestamp after every entry.
func (l *LogInfo) PubAll() {
	var m uint64
	for _, x := range l.Entries {
		if x.TS > m {
			m = x.TS
		}
	}
	if n := len(l.Heads); n > 0 && l.Heads[n-1][1] > m {
		m = l.Heads[n-1][1]
	}
	if l.Off > 0 && l.Filler.TS > m {
		m = l.Filler.TS
	}
	l.Pub(l.Len(), m+1000)
}

func (e *Env) MetaJSON() string {
	ms := []map[string]any{}
	for _, l := range e.logs {
		m := l.Meta(l.Enrolled)
		ms = append(ms, m)
	}
	b, _ := json.Marshal(ms)
	return string(b)
}

type RunOpt struct {
	Redis   func(p *proc.Proc, n int64, args []string) redisx.Action // redis command hook
	OnStart func(p *proc.Proc)
	Timeout time.Duration
	Forever bool
	NoMeta  bool
	Env     []string
	Stop    func() bool // polled: SIGTERM the process when true (Forever)
}

// Run executes ct-fetch once.
func (e *Env) Run(o RunOpt) proc.Result {
	e.runs++
	if o.Timeout == 0 {
		o.Timeout = 180 * time.Second
	}
	env := append(proc.BaseEnv(e.dir), "redisHost="+e.px.Addr, "redisTimeout=5s", "certPath="+filepath.Join(e.dir, "certs"),
		fmt.Sprintf("batchSize=%d", e.batch), "pollingDelay=0", "healthAddr=127.0.0.1:0", "statsRefreshPeriod=1h",
		fmt.Sprintf("runForever=%v", o.Forever))
	if !o.NoMeta {
		env = append(env, "ctLogMetadata="+e.MetaJSON())
	}
	env = append(env, e.extra...)
	env = append(env, o.Env...)
	var p *proc.Proc
	ready := make(chan struct{})
	var n atomic.Int64
	e.px.SetDecide(func(conn int, args []string) redisx.Action {
		k := n.Add(1)
		e.cmdCount.Add(1)
		if o.Redis == nil {
			return redisx.Action{}
		}
		<-ready
		return o.Redis(p, k, args)
	})
	p, err := proc.Start(filepath.Join(binDir, e.bin), []string{"-logtostderr"}, env, e.dir)
	if err != nil {
		mon.Infra("start ct-fetch: %v", err)
	}
	close(ready)
	if o.OnStart != nil {
		go o.OnStart(p)
	}
	if o.Stop != nil {
		go func() {
			for {
				select {
				case <-p.Done():
					return
				case <-time.After(30 * time.Millisecond):
				}
				if o.Stop() {
					p.Kill(syscall.SIGTERM)
					return
				}
			}
		}()
	}
	res := p.Wait(o.Timeout)
	e.px.SetDecide(nil)
	e.lastRun = res
	e.run.Count("ct-fetch runs", 1)
	if res.Signal == syscall.SIGKILL && !res.TimedOut {
		e.run.Count("ct-fetch runs killed", 1)
	}
	return res
}

// Snap is the observable result of ingestion.
type Snap struct {
	States  map[string]types.CTLogState
	Members map[string][]storage.SerialCacheEntry // issuer|hour|serial
	N       int
}

func (e *Env) Observe() *Snap {
	s := &Snap{States: map[string]types.CTLogState{}, Members: map[string][]storage.SerialCacheEntry{}}
	for _, k := range e.stateKeys() {
		s.States[strings.TrimRight(strings.TrimPrefix(k, "log::"), "/")] = e.state(k)
	}
	keys, err := e.rs.C.Keys("serials::*").Result()
	if err != nil {
		mon.Infra("keys: %v", err)
	}
	for _, key := range keys {
		p := strings.Split(key, "::")
		if len(p) != 3 {
			mon.Infra("key %q", key)
		}
		members, err := e.rs.C.SMembers(key).Result()
		if err != nil {
			mon.Infra("smembers: %v", err)
		}
		k := p[2] + "|" + p[1]
		for _, m := range members {
			en := storage.SerialCacheEntry(m)
			ser, err := en.AsSerial()
			if err != nil {
				mon.Infra("AsSerial: %v", err)
			}
			s.Members[k+"|"+ser.HexString()] = append(s.Members[k+"|"+ser.HexString()], en)
			s.N++
		}
	}
	return s
}

// matches tells whether a cache member carries exactly this timestamp and log.
func matches(m storage.SerialCacheEntry, logID [32]byte, ts uint64) bool {
	at := types.CoverageCutoffMap{logID: ts}
	if !m.IsCovered(&at) {
		return false
	}
	other := types.CoverageCutoffMap{}
	if m.IsCovered(&other) {
		return false
	}
	if ts > 0 {
		before := types.CoverageCutoffMap{logID: ts - 1}
		if m.IsCovered(&before) {
			return false
		}
	}
	return true
}

func has(s *Snap, l *LogInfo, x *ctsrv.Entry) bool {
	for _, m := range s.Members[x.IssuerID+"|"+x.Hour+"|"+x.Serial] {
		if matches(m, l.LogID, x.TS) {
			return true
		}
	}
	return false
}

type problem struct {
	prop, key, desc string
	log             *LogInfo
}

// Check compares redis with the ground truth of every log.
func (e *Env) Check(s *Snap) []problem {
	var ps []problem
	add := func(l *LogInfo, prop, key, f string, a ...any) {
		ps = append(ps, problem{prop, key, fmt.Sprintf(f, a...), l})
	}
	for _, l := range e.logs {
		cov := "C01"
		if l.Tiled {
			cov = "C03"
		}
		st, ok := s.States[l.ShortURL()]
		if !ok {
			if l.Prev != nil {
				add(l, cov, "state-lost", "saved state of %s disappeared", l.Name())
			}
			continue
		}
		if st.LastUpdateTime.IsZero() {
			continue // nothing claimed
		}
		if st.MaxEntry >= l.Len() {
			add(l, cov, "claim-beyond-log", "%s claims entries up to %d of %d", l.Name(), st.MaxEntry, l.Len())
			continue
		}
		if st.MinEntry > st.MaxEntry {
			add(l, cov, "claim-inverted", "%s claims [%d,%d]", l.Name(), st.MinEntry, st.MaxEntry)
			continue
		}
		if l.Limit >= 0 && int64(st.MaxEntry) >= l.Limit && (l.Tiled || int64(st.MinEntry) <= l.Limit) {
			add(l, map[bool]string{false: "C02", true: "C03"}[l.Tiled], "covered-unverified", "%s claims [%d,%d] although entry %d did not verify", l.Name(), st.MinEntry, st.MaxEntry, l.Limit)
		}
		missing := []uint64{}
		var minTS, maxTS uint64
		first := st.MinEntry
		if first+1 < l.Off { // only the last filler entry matters
			first = min(l.Off-1, st.MaxEntry)
		}
		for i := first; i <= st.MaxEntry; i++ {
			x := l.At(i)
			if i == first || x.TS < minTS {
				minTS = x.TS
			}
			if i == first || x.TS > maxTS {
				maxTS = x.TS
			}
			if x.Eligible && !has(s, l, x) {
				missing = append(missing, i)
			}
		}
		e.run.Count("claimed entries checked", int(st.MaxEntry-first+1))
		if len(missing) > 0 {
			add(l, cov, "covered-not-recorded", "%s (%d entries) claims [%d,%d] but entry %d (and %d more) is not recorded: %v", l.Name(), l.Len(), st.MinEntry, st.MaxEntry, missing[0], len(missing)-1, l.At(missing[0]).Describe())
			add(l, "C04", "identity-missing", "%s: entry %d is covered but not recorded under its identity %v", l.Name(), missing[0], l.At(missing[0]).Describe())
		}
		if p := l.Prev; p != nil && !p.LastUpdateTime.IsZero() {
			if st.MinEntry > p.MinEntry || st.MaxEntry < p.MaxEntry {
				add(l, cov, "claim-shrunk", "%s claim went from [%d,%d] to [%d,%d]", l.Name(), p.MinEntry, p.MaxEntry, st.MinEntry, st.MaxEntry)
			}
			if st.MaxTimestamp < p.MaxTimestamp {
				add(l, "C22", "max-decreased", "%s latest timestamp went from %d to %d", l.Name(), p.MaxTimestamp, st.MaxTimestamp)
			}
			if st.MinTimestamp > p.MinTimestamp {
				add(l, "C22", "min-increased", "%s earliest timestamp went from %d to %d", l.Name(), p.MinTimestamp, st.MinTimestamp)
			}
		}
		okMax := st.MaxTimestamp <= maxTS
		for _, h := range l.Heads {
			if h[0] > 0 && h[0]-1 <= st.MaxEntry && st.MaxTimestamp <= h[1] {
				okMax = true
			}
		}
		if !okMax {
			add(l, "C22", "max-unjustified", "%s claims [%d,%d] and latest timestamp %d, latest ingested entry %d, heads %v", l.Name(), st.MinEntry, st.MaxEntry, st.MaxTimestamp, maxTS, l.Heads)
		}
		if st.MinEntry > 0 && st.MinTimestamp < minTS {
			add(l, "C22", "min-unjustified", "%s claims [%d,%d] and earliest timestamp %d, earliest ingested entry %d", l.Name(), st.MinEntry, st.MaxEntry, st.MinTimestamp, minTS)
		}
		unsaved := l.Prev != nil && !st.LastUpdateTime.After(l.Prev.LastUpdateTime)
		if st.LogID != l.LogIDB64() || st.MMD != l.MMD && !(unsaved && st.MMD == l.Prev.MMD) {
			add(l, "C22", "meta", "%s state has log ID %s MMD %d, configured %s %d", l.Name(), st.LogID, st.MMD, l.LogIDB64(), l.MMD)
		}
		cp := st
		l.Prev = &cp
		l.Hist = append(l.Hist, fmt.Sprintf("[%d,%d] ts [%d,%d]", st.MinEntry, st.MaxEntry, st.MinTimestamp, st.MaxTimestamp))
	}
	// Nothing that is not in a log may be recorded.
	want := map[string][]struct {
		l *LogInfo
		x *ctsrv.Entry
	}{}
	for _, l := range e.logs {
		for _, x := range l.Entries {
			if x.Eligible {
				k := x.IssuerID + "|" + x.Hour + "|" + x.Serial
				want[k] = append(want[k], struct {
					l *LogInfo
					x *ctsrv.Entry
				}{l, x})
			}
		}
	}
	for k, ms := range s.Members {
		for _, m := range ms {
			ok := false
			for _, c := range want[k] {
				if matches(m, c.l.LogID, c.x.TS) {
					ok = true
					break
				}
			}
			if !ok {
				add(nil, "C04", "recorded-not-in-log", "cache holds %s (member %x) that no log contains", k, string(m))
			}
		}
	}
	e.run.Count("recorded members checked", s.N)
	return ps
}

// stateKeys lists the keys of the saved states; the form with a trailing slash,
// used by older versions, comes before the one without.
func (e *Env) stateKeys() []string {
	keys, err := e.rs.C.Keys("log::*").Result()
	if err != nil {
		mon.Infra("keys: %v", err)
	}
	sort.Slice(keys, func(i, j int) bool {
		if a, b := strings.HasSuffix(keys[i], "/"), strings.HasSuffix(keys[j], "/"); a != b {
			return a
		}
		return keys[i] < keys[j]
	})
	return keys
}

func (e *Env) state(key string) types.CTLogState {
	var st types.CTLogState
	data, err := e.rs.C.Get(key).Bytes()
	if err == nil {
		err = json.Unmarshal(data, &st)
	}
	if err != nil {
		mon.Infra("state %s: %v", key, err)
	}
	return st
}

func (e *Env) setState(key string, st types.CTLogState) {
	data, err := json.Marshal(st)
	if err == nil {
		err = e.rs.C.Set(key, data, 0).Err()
	}
	if err != nil {
		mon.Infra("state %s: %v", key, err)
	}
}

// Age makes every saved state look old, so the ten-minute pause is over.
func (e *Env) Age() {
	for _, k := range e.stateKeys() {
		st := e.state(k)
		if st.LastUpdateTime.IsZero() {
			continue
		}
		st.LastUpdateTime = st.LastUpdateTime.Add(-time.Hour)
		e.setState(k, st)
	}
}

// OldKeys puts some of the saved states under the key older versions used, and
// beside some others an outdated copy of them under that key.
func (e *Env) OldKeys() {
	for _, k := range e.stateKeys() {
		if strings.HasSuffix(k, "/") {
			continue
		}
		st := e.state(k)
		if st.LastUpdateTime.IsZero() {
			continue
		}
		old := st
		if e.r.Intn(2) == 0 {
			old.ShortURL += "/"
		}
		switch e.r.Intn(4) {
		case 0:
			e.setState(k+"/", old)
			if err := e.rs.C.Del(k).Err(); err != nil {
				mon.Infra("del: %v", err)
			}
			e.run.Count("states under the older key", 1)
		case 1:
			if past := e.past[k]; len(past) > 0 {
				old = past[e.r.Intn(len(past))]
			}
			old.LastUpdateTime = st.LastUpdateTime.Add(-time.Hour)
			e.setState(k+"/", old)
			e.run.Count("outdated copies under the older key", 1)
		}
		if e.past == nil {
			e.past = map[string][]types.CTLogState{}
		}
		e.past[k] = append(e.past[k], st)
	}
}

func (e *Env) Detail(l *LogInfo) map[string]any {
	d := map[string]any{"world": e.name, "batch": e.batch, "runs": e.runs, "last run": e.lastRun.String()}
	tail := e.lastRun.Stderr
	if len(tail) > 6000 {
		tail = tail[len(tail)-6000:]
	}
	d["ct-fetch log tail"] = tail
	if l != nil {
		d["log"] = map[string]any{"name": l.Name(), "size": l.Len(), "filler entries": l.Off, "published": l.Size, "heads": l.Heads, "history": l.Hist, "logid": base64.StdEncoding.EncodeToString(l.LogID[:])}
	}
	return d
}

// Report files the problems that concern this run's property.
func (e *Env) Report(ps []problem) bool {
	bad := false
	for _, p := range ps {
		if p.prop == e.run.ID {
			bad = true
			e.run.Violation(p.key, e.name+": "+p.desc, e.Detail(p.log))
		} else {
			e.run.Count("other-property observations "+p.prop+" "+p.key, 1)
		}
	}
	return bad
}

// Converge runs healthy ct-fetch processes until every log is complete, at
// most the number of runs that the amount of work requires.
func (e *Env) Converge(prop string) {
	bound := 6
	for _, l := range e.logs {
		l.SetHook(nil)
		n := int(2*(l.Size-l.Off)/e.batch) + 8
		if n > bound {
			bound = n
		}
	}
	for i := 0; i < bound; i++ {
		e.Age()
		res := e.Run(RunOpt{})
		e.healthyExit(res, prop)
		s := e.Observe()
		e.Report(e.Check(s))
		if e.incomplete(s) == nil {
			e.run.Count("logs converged", len(e.logs))
			// One more run must change nothing in the claims.
			return
		}
		if e.run.Violations() > 15 {
			return
		}
	}
	s := e.Observe()
	for _, l := range e.incomplete(s) {
		p := "C01"
		if l.Tiled {
			p = "C03"
		}
		if p == prop || prop == "C02" && !l.Tiled || prop == "C04" || prop == "C22" {
			e.run.Violation("never-complete", fmt.Sprintf("%s: after %d healthy runs %s (%d entries) is still at %v", e.name, bound, l.Name(), l.Size, l.Hist), e.Detail(l))
		} else {
			e.run.Count("other-property observations "+p+" never-complete", 1)
		}
	}
}

func (e *Env) healthyExit(res proc.Result, prop string) {
	if res.TimedOut || res.Code != 0 || res.Crashed() {
		e.run.Violation("healthy-run-failed", fmt.Sprintf("%s: a fault-free run did not end normally: %s", e.name, res), e.Detail(nil))
	}
}

func (e *Env) incomplete(s *Snap) []*LogInfo {
	var out []*LogInfo
	for _, l := range e.logs {
		if !l.Enrolled || l.Done {
			continue
		}
		if !l.Tiled && l.Size <= 3 || l.Size == 0 {
			continue // waits for more entries by design
		}
		st, ok := s.States[l.ShortURL()]
		if !ok || st.LastUpdateTime.IsZero() || st.MinEntry > l.Reach || st.MaxEntry != l.Size-1 && (st.MinEntry == 0 || st.MaxEntry+e.batch < l.Size) {
			out = append(out, l)
		}
	}
	return out
}

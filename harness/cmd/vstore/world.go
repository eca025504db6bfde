package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"

	"vharness/lib/mon"
	"vharness/lib/redisx"
)

var binDir = os.Getenv("VH_BIN")

// Bin is an (expiry, issuer) pair in the form both sides use in names.
type Bin struct{ Exp, Iss string }

func (b Bin) Key() string { return "serials::" + b.Exp + "::" + b.Iss }

type Set map[string]bool

// Log is a log's coverage as the harness defines it.
type Log struct {
	ID    [32]byte
	Short string
	MMD   uint64
	Max   uint64 // MaxTimestamp
	MaxE  uint64
	LastU time.Time
}

func (l *Log) State() *types.CTLogState {
	return &types.CTLogState{LogID: base64.StdEncoding.EncodeToString(l.ID[:]), MMD: l.MMD, ShortURL: l.Short,
		MinEntry: 0, MaxEntry: l.MaxE, MinTimestamp: 1, MaxTimestamp: l.Max, LastUpdateTime: l.LastU}
}

// covered is the definition: the log's latest covered timestamp minus its
// merge delay is at or after the entry's timestamp.
func covered(states []LState, m string) bool {
	if len(m) < 40 {
		return true // old format, no timestamp
	}
	ts := binary.LittleEndian.Uint64([]byte(m[:8]))
	id := base64.StdEncoding.EncodeToString([]byte(m[8:40]))
	for _, s := range states {
		if s.LogID == id && s.MaxTimestamp >= s.MMD*1000 && s.MaxTimestamp-s.MMD*1000 >= ts {
			return true
		}
	}
	return false
}

func serialOf(m string) string {
	if len(m) < 40 {
		return m
	}
	return m[40:]
}

// LState is the harness's own view of a log state.
type LState struct {
	LogID        string
	MMD          uint64
	ShortURL     string
	MinEntry     uint64
	MaxEntry     uint64
	MinTimestamp uint64
	MaxTimestamp uint64
}

func lstates(l []LState) string {
	if len(l) == 0 {
		return "none"
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ShortURL < l[j].ShortURL })
	js, _ := json.Marshal(l)
	return string(js)
}

type Storage struct {
	Bins     map[Bin]Set
	Dups     []string
	Problems []string
	Cov      []LState
	CovRaw   string
	HasCov   bool
	Epoch    string
	Others   []string // names that are not serial lists
}

func readStorage(dir string) *Storage {
	s := &Storage{Bins: map[Bin]Set{}}
	bad := func(f string, a ...any) { s.Problems = append(s.Problems, fmt.Sprintf(f, a...)) }
	if b, err := os.ReadFile(filepath.Join(dir, "epoch")); err == nil {
		s.Epoch = string(b)
	}
	if b, err := os.ReadFile(filepath.Join(dir, "ct-logs.json")); err == nil {
		s.HasCov = true
		s.CovRaw = string(b)
		d := json.NewDecoder(bytes.NewReader(b))
		if err := d.Decode(&s.Cov); err != nil {
			bad("ct-logs.json: %v", err)
		} else if d.More() {
			bad("ct-logs.json: trailing data")
		}
	}
	issuers, err := os.ReadDir(filepath.Join(dir, "serials"))
	if err != nil {
		return s
	}
	for _, i := range issuers {
		p := filepath.Join(dir, "serials", i.Name())
		if !i.IsDir() || !strings.HasPrefix(i.Name(), "issuer::") {
			s.Others = append(s.Others, i.Name())
			continue
		}
		iss := strings.TrimPrefix(i.Name(), "issuer::")
		files, err := os.ReadDir(p)
		if err != nil {
			bad("%v", err)
			continue
		}
		for _, f := range files {
			parts := strings.Split(f.Name(), "::")
			if len(parts) != 3 || parts[0] != "serials" || f.IsDir() || parts[2] != iss {
				s.Others = append(s.Others, i.Name()+"/"+f.Name())
				continue
			}
			b, err := os.ReadFile(filepath.Join(p, f.Name()))
			if err != nil {
				bad("%v", err)
				continue
			}
			t, ok := expTime(parts[1])
			if !ok {
				s.Others = append(s.Others, i.Name()+"/"+f.Name())
				continue
			}
			bin := Bin{parts[1], iss}
			s.Bins[bin] = Set{}
			lines := strings.SplitAfter(string(b), "\n")
			if len(lines) == 0 || lines[len(lines)-1] != "" {
				bad("%s: does not end in a newline", f.Name())
				continue
			}
			lines = lines[:len(lines)-1]
			if len(lines) == 0 || lines[0] != fmt.Sprintf("@%016x\n", t.Unix()) {
				bad("%s: wrong expiry line", f.Name())
				continue
			}
			for _, l := range lines[1:] {
				h, err := hex.DecodeString(strings.TrimSuffix(l, "\n"))
				if err != nil {
					bad("%s: line %q", f.Name(), l)
					continue
				}
				if s.Bins[bin][string(h)] {
					s.Dups = append(s.Dups, f.Name()+" "+l)
				}
				s.Bins[bin][string(h)] = true
			}
		}
	}
	return s
}

func expTime(s string) (time.Time, bool) {
	if t, err := time.Parse("2006-01-02-15", s); err == nil {
		return t, true
	}
	t, err := time.Parse("2006-01-02", s)
	return t, err == nil
}

// expEnd is the instant from which the list's expiry has completely passed.
func expEnd(s string) (time.Time, bool) {
	if t, err := time.Parse("2006-01-02-15", s); err == nil {
		return t.Add(time.Hour), true
	}
	t, err := time.Parse("2006-01-02", s)
	return t.Add(24 * time.Hour), err == nil
}

type Cache struct {
	Bins  map[Bin]Set
	Logs  []LState
	Epoch string
	Lock  string
	Other []string
}

func (c *Cache) N() int {
	n := 0
	for _, s := range c.Bins {
		n += len(s)
	}
	return n
}

func readCache(rs *redisx.Server) *Cache {
	c := &Cache{Bins: map[Bin]Set{}}
	d, err := rs.C.Keys("*").Result()
	if err != nil {
		mon.Infra("redis keys: %v", err)
	}
	for _, k := range d {
		switch {
		case strings.HasPrefix(k, "serials::"):
			p := strings.Split(k, "::")
			if len(p) != 3 {
				c.Other = append(c.Other, k)
				continue
			}
			v, err := rs.C.SMembers(k).Result()
			if err != nil {
				mon.Infra("smembers: %v", err)
			}
			s := Set{}
			for _, m := range v {
				s[m] = true
			}
			if len(s) > 0 {
				c.Bins[Bin{p[1], p[2]}] = s
			}
		case strings.HasPrefix(k, "log::"):
			v, err := rs.C.Get(k).Result()
			if err != nil {
				mon.Infra("get: %v", err)
			}
			var l LState
			if err := json.Unmarshal([]byte(v), &l); err != nil {
				c.Other = append(c.Other, k)
				continue
			}
			c.Logs = append(c.Logs, l)
		case k == "epoch":
			c.Epoch, _ = rs.C.Get(k).Result()
		case k == "lock::commit":
			c.Lock, _ = rs.C.Get(k).Result()
		default:
			c.Other = append(c.Other, k)
		}
	}
	return c
}

// W is one installation: redis, storage directory and ground truth.
type W struct {
	run     *mon.Run
	r       *rand.Rand
	rs      *redisx.Server
	px      *redisx.Proxy
	dir     string
	cache   *storage.RedisCache // through the proxy
	direct  *storage.RedisCache
	db      storage.CertDatabase // through the proxy
	ing     storage.CertDatabase // direct, for ingestion
	issuers []types.Issuer
	exps    []string
	logs    []*Log
	mu      sync.Mutex
	ledger  map[Bin]Set // every member ever recorded
	now     uint64
}

var rpool struct {
	sync.Mutex
	l []*redisx.Server
}

func getRedis(run *mon.Run) *redisx.Server {
	rpool.Lock()
	if n := len(rpool.l); n > 0 {
		s := rpool.l[n-1]
		rpool.l = rpool.l[:n-1]
		rpool.Unlock()
		if err := s.Flush(); err != nil {
			mon.Infra("flush: %v", err)
		}
		return s
	}
	rpool.Unlock()
	s, err := redisx.Start(run.Scratch)
	if err != nil {
		mon.Infra("redis: %v", err)
	}
	return s
}

func NewW(run *mon.Run, r *rand.Rand) *W {
	w := &W{run: run, r: r, ledger: map[Bin]Set{}}
	w.rs = getRedis(run)
	d, err := os.MkdirTemp(run.Scratch, "st")
	if err != nil {
		mon.Infra("%v", err)
	}
	w.dir = filepath.Join(d, "certs")
	w.px, err = redisx.NewProxy(w.rs.Addr, nil)
	if err != nil {
		mon.Infra("%v", err)
	}
	w.open()
	w.now = uint64(time.Now().UnixMilli())
	ni := 1 + r.Intn(4)
	for i := 0; i < ni; i++ {
		b := make([]byte, 40+r.Intn(60))
		r.Read(b)
		w.issuers = append(w.issuers, types.NewIssuerFromSPKI(b))
	}
	base := time.Now().UTC().Truncate(time.Hour)
	ne := 1 + r.Intn(4)
	for i := 0; i < ne; i++ {
		t := base.Add(time.Duration(30+r.Intn(20000)) * time.Hour)
		switch r.Intn(12) {
		case 0: // beyond 2106: does not fit 32 bits
			t = time.Date(2100+r.Intn(100), 2, 29, r.Intn(24), 0, 0, 0, time.UTC)
		case 1: // the latest a certificate can express
			t = time.Date(9999-r.Intn(2)*r.Intn(7000), 12, 31, 23, 0, 0, 0, time.UTC)
		}
		w.exps = append(w.exps, t.Format("2006-01-02-15"))
	}
	nl := 1 + r.Intn(4)
	for i := 0; i < nl; i++ {
		l := &Log{Short: fmt.Sprintf("log%d.example/ct/%d", i, i), MMD: uint64(r.Intn(5)) * 21600}
		r.Read(l.ID[:])
		l.Max = w.now - uint64(r.Intn(100000000))
		l.MaxE = uint64(r.Intn(10000))
		w.logs = append(w.logs, l)
	}
	return w
}

func (w *W) open() {
	var err error
	w.cache, err = storage.NewRedisCache(w.px.Addr, 10*time.Second)
	if err != nil {
		mon.Infra("cache: %v", err)
	}
	w.direct, err = storage.NewRedisCache(w.rs.Addr, 10*time.Second)
	if err != nil {
		mon.Infra("cache: %v", err)
	}
	w.db, err = storage.NewCertDatabase(w.cache, w.dir, false)
	if err != nil {
		mon.Infra("db: %v", err)
	}
	w.ing, err = storage.NewCertDatabase(w.direct, w.dir, true)
	if err != nil {
		mon.Infra("db: %v", err)
	}
}

func (w *W) Close() {
	w.px.Close()
	os.RemoveAll(filepath.Dir(w.dir))
	rpool.Lock()
	rpool.l = append(rpool.l, w.rs)
	rpool.Unlock()
}

func (w *W) serial() string {
	n := 1 + w.r.Intn(20)
	switch w.r.Intn(12) {
	case 0:
		n = 21 + w.r.Intn(40)
	case 1:
		n = 1
	case 2:
		n = 200 + w.r.Intn(3000)
	}
	b := make([]byte, n)
	w.r.Read(b)
	switch w.r.Intn(6) {
	case 0:
		b[0] = 0
	case 1:
		b[n-1] = 0
	case 2:
		b[w.r.Intn(n)] = '\n'
	}
	return string(b)
}

// Ts picks a timestamp near one of the boundaries that matter for log l.
func (w *W) ts(l *Log) uint64 {
	cut := l.Max - l.MMD*1000
	switch w.r.Intn(7) {
	case 0:
		return cut
	case 1:
		return cut + 1
	case 2:
		return cut - 1
	case 3:
		return l.Max
	case 4:
		return l.Max + uint64(w.r.Intn(1000000))
	case 5:
		return cut - uint64(w.r.Intn(100000000))
	}
	return cut + 1 + uint64(w.r.Int63n(int64(l.MMD*1000)+1))
}

type Rec struct {
	Bin Bin
	Mem string
	Log int
	Ts  uint64
}

func encMember(ts uint64, id [32]byte, serial string) string {
	var b [40]byte
	binary.LittleEndian.PutUint64(b[:8], ts)
	copy(b[8:], id[:])
	return string(b[:]) + serial
}

// Make prepares n records; some repeat a serial under another log or time.
func (w *W) Make(n int) []Rec {
	var out []Rec
	for i := 0; i < n; i++ {
		li := w.r.Intn(len(w.logs))
		l := w.logs[li]
		iss := w.issuers[w.r.Intn(len(w.issuers))]
		bin := Bin{w.exps[w.r.Intn(len(w.exps))], iss.ID()}
		s := w.serial()
		if len(out) > 0 && w.r.Intn(4) == 0 {
			o := out[w.r.Intn(len(out))]
			s = serialOf(o.Mem)
			if w.r.Intn(2) == 0 {
				bin = o.Bin
			}
		}
		id := l.ID
		if w.r.Intn(12) == 0 { // a log with no saved state
			id[0] ^= 0xff
			id[31] ^= 0x55
		}
		ts := w.ts(l)
		out = append(out, Rec{bin, encMember(ts, id, s), li, ts})
	}
	return out
}

// Put records through the real code, and checks that it did.
func (w *W) Put(recs []Rec) error {
	var items []storage.SetMemberWithExpiry
	for _, x := range recs {
		items = append(items, w.item(x))
	}
	if err := w.ing.Store(items); err != nil {
		return err
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, x := range recs {
		if w.ledger[x.Bin] == nil {
			w.ledger[x.Bin] = Set{}
		}
		w.ledger[x.Bin][x.Mem] = true
	}
	return nil
}

func (w *W) item(x Rec) storage.SetMemberWithExpiry {
	exp, err := types.NewExpDate(x.Bin.Exp)
	if err != nil {
		mon.Infra("exp %s: %v", x.Bin.Exp, err)
	}
	var iss types.Issuer
	for _, i := range w.issuers {
		if i.ID() == x.Bin.Iss {
			iss = i
		}
	}
	return w.ing.GetSerialCacheKey(exp, iss).NewMember(x.Ts, [32]byte([]byte(x.Mem[8:40])), types.NewSerialFromBytes([]byte(serialOf(x.Mem))))
}

// PutOld records serials in the format without a timestamp.
func (w *W) PutOld(n int) {
	for i := 0; i < n; i++ {
		iss := w.issuers[w.r.Intn(len(w.issuers))]
		bin := Bin{w.exps[w.r.Intn(len(w.exps))], iss.ID()}
		s := w.serial()
		if len(s) >= 40 {
			s = s[:20]
		}
		w.rs.C.SAdd(bin.Key(), s)
		t, _ := expTime(bin.Exp)
		w.rs.C.ExpireAt(bin.Key(), t)
		if w.ledger[bin] == nil {
			w.ledger[bin] = Set{}
		}
		w.ledger[bin][s] = true
	}
}

func (w *W) SaveLogs() {
	for _, l := range w.logs {
		if err := w.ing.SaveLogState(l.State()); err != nil {
			mon.Infra("save state: %v", err)
		}
	}
}

func (w *W) Commit() error {
	tok, err := w.cache.AcquireCommitLock()
	if err != nil {
		return fmt.Errorf("acquire: %v", err)
	}
	if tok == nil {
		return fmt.Errorf("lock held")
	}
	defer w.cache.ReleaseCommitLock(*tok)
	return w.db.Commit(*tok)
}

func sortedBins[T any](m map[Bin]T) []Bin {
	var out []Bin
	for b := range m {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key() < out[j].Key() })
	return out
}

func diff(want, got Set) string {
	var miss, extra []string
	for s := range want {
		if !got[s] {
			miss = append(miss, hx(s))
		}
	}
	for s := range got {
		if !want[s] {
			extra = append(extra, hx(s))
		}
	}
	sort.Strings(miss)
	sort.Strings(extra)
	if len(miss)+len(extra) == 0 {
		return ""
	}
	lim := func(x []string) []string {
		if len(x) > 5 {
			return append(x[:5:5], "...+"+strconv.Itoa(len(x)-5))
		}
		return x
	}
	return fmt.Sprintf("missing %v, unexpected %v", lim(miss), lim(extra))
}

func hx(s string) string {
	if len(s) > 70 {
		return fmt.Sprintf("%x..(%d)", s[:70], len(s))
	}
	return hex.EncodeToString([]byte(s))
}

func union(a, b Set) Set {
	o := Set{}
	for s := range a {
		o[s] = true
	}
	for s := range b {
		o[s] = true
	}
	return o
}

func coveredSerials(states []LState, members Set) Set {
	o := Set{}
	for m := range members {
		if covered(states, m) {
			o[serialOf(m)] = true
		}
	}
	return o
}

func allBins(ms ...map[Bin]Set) []Bin {
	u := map[Bin]bool{}
	for _, m := range ms {
		for b := range m {
			u[b] = true
		}
	}
	return sortedBins(u)
}

// snapshot of a directory tree, for "changed nothing" checks
func treeHash(dir string) string {
	h := sha256.New()
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		fmt.Fprintf(h, "%q %v ", rel, fi.IsDir())
		if !fi.IsDir() {
			b, _ := os.ReadFile(p)
			fmt.Fprintf(h, "%d ", len(b))
			h.Write(b)
		}
		return nil
	})
	return hex.EncodeToString(h.Sum(nil)[:8])
}

// cacheDump is everything in the cache but the lock.
func cacheDump(rs *redisx.Server) string {
	d, err := rs.Dump()
	if err != nil {
		mon.Infra("dump: %v", err)
	}
	delete(d, "lock::commit")
	js, _ := json.Marshal(d)
	h := sha256.Sum256(js)
	return hex.EncodeToString(h[:8])
}

func items(w *W, recs []Rec) []storage.SetMemberWithExpiry {
	var out []storage.SetMemberWithExpiry
	for _, x := range recs {
		out = append(out, w.item(x))
	}
	return out
}

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	types "github.com/mozilla/crlite/go"

	"vharness/lib/der"
	"vharness/lib/mon"
	"vharness/lib/proc"
	"vharness/lib/redisx"
)

// caPool holds CA keys with one or two certificates each.
type ca struct {
	key   *der.Key
	certs [][]byte
}

var caPool []ca
var caOnce sync.Once

func cas() []ca {
	caOnce.Do(func() {
		for i := 0; i < 24; i++ {
			k := der.NewKey()
			c := ca{key: k}
			n := der.NameO("Org", fmt.Sprintf("CA %d", i))
			c.certs = append(c.certs, der.CACert(k, n, n, k, time.Now().AddDate(5, 0, 0)))
			if i%4 == 0 {
				n := der.NameO("Org", fmt.Sprintf("CA %d, another name", i))
				c.certs = append(c.certs, der.CACert(k, n, n, k, time.Now().AddDate(6, 0, 0)))
			}
			caPool = append(caPool, c)
		}
	})
	return caPool
}

// known is an installation with the input and outputs of aggregate-known.
type known struct {
	*W
	enrolled          map[string]bool
	enrolledPath      string
	knownPath, ctPath string
	threads           int
	tz                string
}

func newKnown(run *mon.Run, r *rand.Rand) *known {
	w := NewW(run, r)
	k := &known{W: w, enrolled: map[string]bool{}}
	base := filepath.Dir(w.dir)
	k.enrolledPath, k.knownPath, k.ctPath = filepath.Join(base, "enrolled.json"), filepath.Join(base, "known"), filepath.Join(base, "out-ct-logs.json")
	k.threads = []int{1, 2, 4, 16}[r.Intn(4)]
	k.tz = zones[r.Intn(len(zones))]
	pool := cas()
	w.issuers = nil
	n := []int{1, 2, 4, 10, 20}[r.Intn(5)]
	list := []map[string]any{}
	for _, i := range r.Perm(len(pool))[:n] {
		is := types.NewIssuerFromSPKI(pool[i].key.SPKI)
		w.issuers = append(w.issuers, is)
		if r.Intn(4) > 0 {
			k.enrolled[is.ID()] = true
			for _, c := range pool[i].certs {
				u := sha256.Sum256(c)
				list = append(list, map[string]any{"uniqueID": base64.URLEncoding.EncodeToString(u[:]), "pubKeyHash": pool[i].key.ID(), "subject": "x", "pem": strings.TrimSpace(der.PEM(c)), "uses_partitioned_crls": r.Intn(2) == 0})
			}
		}
	}
	// enrolled issuers without any certificates
	for _, i := range r.Perm(len(pool))[:r.Intn(4)] {
		id := pool[i].key.ID()
		if !k.enrolled[id] && !k.has(id) {
			k.enrolled[id] = true
			list = append(list, map[string]any{"pubKeyHash": id, "pem": strings.TrimSpace(der.PEM(pool[i].certs[0]))})
		}
	}
	js, _ := json.Marshal(list)
	if err := os.WriteFile(k.enrolledPath, js, 0644); err != nil {
		mon.Infra("%v", err)
	}
	// expiries around the present too
	now := time.Now()
	w.exps = nil
	for j := 1 + r.Intn(12); j > 0; j-- {
		w.exps = append(w.exps, hourName(now, 1+r.Intn(9000)))
	}
	if r.Intn(3) == 0 {
		w.exps = append(w.exps, dayName(now, 1+r.Intn(300)))
	}
	if r.Intn(3) == 0 {
		w.exps = append(w.exps, time.Date(2101+r.Intn(7899), 12, 31, r.Intn(24), 0, 0, 0, time.UTC).Format("2006-01-02-15"))
	}
	os.MkdirAll(filepath.Join(w.dir, "serials"), 0755)
	for j := r.Intn(10); j > 0; j-- { // already in storage
		var ss []string
		for m := r.Intn(5); m >= 0; m-- {
			ss = append(ss, w.serial())
		}
		ss = uniq(ss)
		e := []string{hourName(now, 0), hourName(now, -1), hourName(now, -50), hourName(now, 1), dayName(now, 0), dayName(now, -1), dayName(now, 1), w.exps[0]}[r.Intn(8)]
		writeList(w.dir, Bin{e, w.issuers[r.Intn(len(w.issuers))].ID()}, ss)
	}
	if err := w.Put(w.Make(1 + r.Intn(300))); err != nil {
		mon.Infra("%v", err)
	}
	w.SaveLogs()
	return k
}

func (k *known) has(id string) bool {
	for _, i := range k.issuers {
		if i.ID() == id {
			return true
		}
	}
	return false
}

func uniq(in []string) []string {
	m := map[string]bool{}
	var out []string
	for _, s := range in {
		if !m[s] {
			m[s] = true
			out = append(out, s)
		}
	}
	return out
}

func (k *known) args() []string {
	return []string{"-logtostderr", "-enrolledpath", k.enrolledPath, "-knownpath", k.knownPath, "-ctlogspath", k.ctPath}
}

func (k *known) env() []string {
	tmp := filepath.Dir(k.dir)
	return append(k.commitEnv(tmp), fmt.Sprintf("numThreads=%d", k.threads), "TZ="+k.tz)
}

func (k *known) start() *proc.Proc {
	p, err := proc.Start(filepath.Join(binDir, "aggregate-known"), k.args(), k.env(), filepath.Dir(k.dir))
	if err != nil {
		mon.Infra("start: %v", err)
	}
	return p
}

// parseKnown reads a known file: expiry (unix) -> serials
func parseKnown(b []byte) (map[int64]Set, int, error) {
	out := map[int64]Set{}
	n := 0
	if len(b) == 0 {
		return out, 0, nil
	}
	if b[len(b)-1] != '\n' {
		return nil, 0, fmt.Errorf("the last line is incomplete")
	}
	var cur Set
	for i, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		if strings.HasPrefix(l, "@") {
			h, err := hex.DecodeString(l[1:])
			if err != nil || len(h) != 8 {
				return nil, 0, fmt.Errorf("line %d: %q", i+1, l)
			}
			var t int64
			for _, c := range h {
				t = t<<8 | int64(c)
			}
			if out[t] == nil {
				out[t] = Set{}
			}
			cur = out[t]
			continue
		}
		h, err := hex.DecodeString(l)
		if err != nil || cur == nil {
			return nil, 0, fmt.Errorf("line %d: %q", i+1, l)
		}
		if cur[string(h)] {
			return nil, 0, fmt.Errorf("line %d: serial %s twice", i+1, l)
		}
		cur[string(h)] = true
		n++
	}
	return out, n, nil
}

// verifyOutput compares the outputs of a successful run with storage as it is.
func (k *known) verifyOutput(what string, t0 time.Time) {
	for _, p := range k.problems(readStorage(k.dir), t0) {
		k.run.Violation(p[0], what+": "+p[1], nil)
	}
}

// problems compares the outputs with storage as it was at s.
func (k *known) problems(s *Storage, t0 time.Time) (out [][2]string) {
	v := func(key, f string, a ...any) { out = append(out, [2]string{key, fmt.Sprintf(f, a...)}) }
	var cov []LState
	b, err := os.ReadFile(k.ctPath)
	if err != nil {
		v("coverage-output", "%v", err)
	} else {
		d := json.NewDecoder(bytes.NewReader(b))
		if err := d.Decode(&cov); err != nil || d.More() {
			v("coverage-output", "unreadable: %v", err)
		} else if lstates(cov) != lstates(s.Cov) {
			v("coverage-output", "written %s, stored %s", lstates(cov), lstates(s.Cov))
		}
	}
	want := map[string]map[int64]Set{}
	maybe := map[string]map[int64]bool{}
	for bin, set := range s.Bins {
		if !k.enrolled[bin.Iss] {
			continue
		}
		t, _ := expTime(bin.Exp)
		end, _ := expEnd(bin.Exp)
		if want[bin.Iss] == nil {
			want[bin.Iss], maybe[bin.Iss] = map[int64]Set{}, map[int64]bool{}
		}
		if end.Before(t0.Add(-3 * time.Second)) {
			continue
		}
		if end.Before(time.Now().Add(3 * time.Second)) {
			maybe[bin.Iss][t.Unix()] = true // just expiring
			continue
		}
		if want[bin.Iss][t.Unix()] == nil { // a day list and the list of its first hour share a line
			want[bin.Iss][t.Unix()] = Set{}
		}
		want[bin.Iss][t.Unix()] = union(want[bin.Iss][t.Unix()], set)
	}
	files, err := os.ReadDir(k.knownPath)
	if err != nil {
		v("known-output", "%v", err)
		return out
	}
	have := map[string]bool{}
	total := 0
	for _, f := range files {
		id := f.Name()
		have[id] = true
		b, err := os.ReadFile(filepath.Join(k.knownPath, id))
		if err != nil {
			v("known-output", "%v", err)
			continue
		}
		if !k.enrolled[id] {
			if len(b) > 0 {
				v("not-enrolled", "known file %s (%d bytes) belongs to no enrolled issuer", id, len(b))
			}
			continue
		}
		got, n, err := parseKnown(b)
		if err != nil {
			v("known-output", "%s: %v", id, err)
			continue
		}
		total += n
		for t := range got {
			if len(got[t]) > 0 && want[id][t] == nil && !maybe[id][t] {
				v("known-output", "%s: %d serials under expiry %d, which storage does not have unexpired", id, len(got[t]), t)
			}
		}
		for t, set := range want[id] {
			if d := diff(set, got[t]); d != "" {
				v("known-output", "%s expiry %d: %s", id, t, d)
			}
		}
		k.run.Eval(fmt.Sprintf("known/%s/%d/%d", id, len(want[id]), n))
	}
	for id, m := range want {
		n := 0
		for _, s := range m {
			n += len(s)
		}
		if n > 0 && !have[id] {
			v("known-output", "no file for %s, which has %d serials", id, n)
		}
	}
	k.run.Count("known files checked", len(files))
	k.run.Count("known serials checked", total)
	return out
}

// finish judges a run that was disturbed: failure is fine, success must be real.
func (k *known) finish(what string, res proc.Result, t0 time.Time, mustFail bool) {
	k.px.SetDecide(nil)
	switch {
	case res.TimedOut:
		k.run.Violation("hang", what+": did not finish in 60 s: "+tail(res.Stderr), nil)
		return
	case res.Code == 0:
		if mustFail {
			k.run.Violation("success-without-output", what+": reported success", nil)
			return
		}
		k.verifyOutput(what, t0)
	case !strings.Contains(res.Stderr, "F1") && strings.Contains(res.Stderr, "panic:"):
		k.run.Violation("crash", what+": "+tail(res.Stderr), nil)
	}
	k.run.Count(fmt.Sprintf("disturbed runs with success=%v", res.Code == 0), 1)
}

func (k *known) lockFree(what string) {
	if h := holder(k.rs); h != "" {
		k.run.Violation("lock-kept", what+": the commit lock is still held", nil)
	}
}

func c10(run *mon.Run) {
	run.Rule = "a case is one known file of a run, or one disturbed run; distinct cases differ in the issuer, its lists and the disturbance"
	run.Assume = []string{"lists that expire within 3 s of the run are not judged"}
	mon.Par(8, run.Pick(100, 1500), func(i int) { c10Quiet(run, run.Rand("quiet", i), i) })
	mon.Par(8, run.Pick(200, 3000), func(i int) { c10Redis(run, run.Rand("redis", i%20), i) })
	mon.Par(8, run.Pick(90, 900), func(i int) { c10Files(run, run.Rand("files", i), i) })
	mon.Par(8, run.Pick(60, 800), func(i int) { c10Signals(run, run.Rand("sig", i), i) })
	mon.Par(8, run.Pick(16, 64), func(i int) { c10Lock(run, run.Rand("lock", i), i) })
	mon.Par(4, run.Pick(30, 300), func(i int) { c10During(run, run.Rand("during", i), i) })
	if stracable() {
		mon.Par(8, run.Pick(60, 400), func(i int) { c10Sys(run, run.Rand("sys", i), i) })
	}
}

func c10Quiet(run *mon.Run, r *rand.Rand, i int) {
	k := newKnown(run, r)
	defer k.Close()
	for n := 0; n < 1+r.Intn(3); n++ {
		what := fmt.Sprintf("quiet run %d, %d threads, TZ=%s", n, k.threads, k.tz)
		if n > 0 {
			if err := k.Put(k.Make(r.Intn(100))); err != nil {
				mon.Infra("%v", err)
			}
			for _, l := range k.logs {
				l.Max += uint64(r.Intn(200000000))
			}
			k.SaveLogs()
		}
		if r.Intn(2) == 0 { // leftovers
			os.MkdirAll(k.knownPath, 0755)
			os.WriteFile(filepath.Join(k.knownPath, k.issuers[0].ID()), bytes.Repeat([]byte("@00000000\n"), 3000), 0644)
			if !k.enrolled[k.issuers[0].ID()] {
				os.RemoveAll(k.knownPath)
			}
			os.WriteFile(k.ctPath, bytes.Repeat([]byte("[{},"), 5000), 0644)
		} else {
			os.RemoveAll(k.knownPath)
		}
		if r.Intn(3) == 0 {
			k.px.SetDecide(scanChaos(r.Int63()))
		}
		s0, k0 := readStorage(k.dir), readCache(k.rs)
		hadIssuer := false
		for b := range s0.Bins {
			hadIssuer = hadIssuer || b.Iss == k.issuers[0].ID()
		}
		if !hadIssuer && len(k0.Bins) > 0 {
			os.Remove(filepath.Join(k.knownPath, k.issuers[0].ID()))
		}
		if r.Intn(8) == 0 { // a setting that leaves nobody to do the work
			was := k.threads
			k.threads = -r.Intn(3)
			t0 := time.Now()
			k.finish(fmt.Sprintf("%s, %d threads", what, k.threads), k.start().Wait(60*time.Second), t0, false)
			k.threads = was
			k.lockFree(what)
			run.Count("runs without threads", 1)
			continue
		}
		t0 := time.Now()
		p := k.start()
		res := p.Wait(60 * time.Second)
		k.px.SetDecide(nil)
		if res.Code != 0 {
			run.Violation("failed", fmt.Sprintf("%s: %v %s", what, res, tail(res.Stderr)), nil)
			return
		}
		k.verifyCommit("aggregate-known", s0, k0)
		k.verifyOutput(what, t0)
		k.lockFree(what)
		run.Count("quiet runs", 1)
	}
}

func c10Redis(run *mon.Run, r *rand.Rand, i int) {
	k := newKnown(run, r)
	defer k.Close()
	n := 1 + (i/20)*4 + i%4 + i%7
	kind := (i / 3) % 4
	var cnt atomic.Int64
	released := false
	k.px.SetDecide(func(conn int, args []string) redisx.Action {
		c := cnt.Add(1)
		if len(args) > 3 && strings.HasPrefix(strings.ToLower(args[0]), "eval") {
			if c == int64(n) {
				released = true
			}
		}
		if c != int64(n) {
			return redisx.Action{}
		}
		switch kind {
		case 0:
			return redisx.Action{Kind: redisx.ErrorReply, Text: "ERR injected"}
		case 1:
			a := redisx.Action{Kind: redisx.ExecError, Text: "ERR injected"}
			if len(args) > 1 && args[1] == lockKey {
				// the acquisition took effect but its caller cannot know: it
				// would wait for that lock to expire, so let it
				a.Post = func() { k.rs.C.Del(lockKey) }
			}
			return a
		case 2:
			return redisx.Action{Kind: redisx.Drop}
		}
		return redisx.Action{Pre: func() { k.rs.C.Del(lockKey) }} // the lock expires
	})
	t0 := time.Now()
	res := k.start().Wait(60 * time.Second)
	what := fmt.Sprintf("redis fault %d at command %d", kind, n)
	hit := cnt.Load() >= int64(n)
	k.finish(what, res, t0, false)
	if !released && kind != 1 {
		k.lockFree(what)
	}
	run.Eval(fmt.Sprintf("redis/%d/%d/%v/%v", kind, n, hit, res.Code == 0))
}

// c10Files: a serial list or an output that cannot be read or written.
func c10Files(run *mon.Run, r *rand.Rand, i int) {
	k := newKnown(run, r)
	defer k.Close()
	// have something to damage: a list of an enrolled issuer in storage
	var en []string
	for _, is := range k.issuers {
		if k.enrolled[is.ID()] {
			en = append(en, is.ID())
		}
	}
	if len(en) == 0 {
		return
	}
	sort.Strings(en)
	id := en[r.Intn(len(en))]
	e := hourName(time.Now(), 3000+r.Intn(100))
	b := Bin{e, id}
	var ss []string
	for j := 0; j < 1+r.Intn(2000); j++ {
		ss = append(ss, k.serial())
	}
	writeList(k.dir, b, uniq(ss))
	path := filepath.Join(k.dir, "serials", "issuer::"+id, "serials::"+e+"::"+id)
	txt, _ := os.ReadFile(path)
	kind := i % 15
	mustFail := true
	what := ""
	switch kind {
	case 0:
		what = "a serial list has a line that is not hex"
		txt[20+r.Intn(len(txt)-21)] = 'x'
		os.WriteFile(path, txt, 0644)
	case 1:
		what = "a serial list ends in half a byte"
		os.WriteFile(path, append(txt, "abc"...), 0644)
	case 2:
		what = "a serial list has the wrong expiry"
		txt[5+r.Intn(10)] ^= 1
		txt[1] = 'f'
		os.WriteFile(path, txt, 0644)
	case 3:
		what = "a serial list is a directory"
		os.Remove(path)
		os.MkdirAll(filepath.Join(path, "x"), 0755)
	case 4:
		what = "the output directory is a file"
		os.WriteFile(k.knownPath, nil, 0644)
	case 5:
		what = "an output file cannot be created"
		os.MkdirAll(filepath.Join(k.knownPath, id), 0755)
	case 6:
		what = "the coverage output cannot be created"
		k.ctPath = filepath.Join(filepath.Dir(k.dir), "missing", "ct-logs.json")
	case 7:
		what = "the coverage output is on a full device"
		os.Symlink("/dev/full", k.ctPath)
	case 8:
		what = "an output file is on a full device"
		os.MkdirAll(k.knownPath, 0755)
		os.Symlink("/dev/full", filepath.Join(k.knownPath, id))
	case 9:
		what = "no enrolled list"
		os.Remove(k.enrolledPath)
	case 10:
		what = "half an enrolled list"
		t, _ := os.ReadFile(k.enrolledPath)
		os.WriteFile(k.enrolledPath, t[:len(t)/2], 0644)
	case 11:
		what = "an enrolled certificate is damaged"
		t, _ := os.ReadFile(k.enrolledPath)
		os.WriteFile(k.enrolledPath, bytes.Replace(t, []byte("CERTIFICATE-----\\nM"), []byte("CERTIFICATE-----\\n!"), 1), 0644)
	case 12:
		what = "no redis"
		k.px.SetDecide(func(int, []string) redisx.Action { return redisx.Action{Kind: redisx.Drop} })
	case 13:
		what = "no redis after a while"
		var cnt atomic.Int64
		n := int64(8 + r.Intn(10))
		k.px.SetDecide(func(int, []string) redisx.Action {
			if cnt.Add(1) > n {
				return redisx.Action{Kind: redisx.Drop}
			}
			return redisx.Action{}
		})
		mustFail = false
	case 14:
		what = "the coverage in storage is a directory"
		os.MkdirAll(filepath.Join(k.dir, "ct-logs.json", "x"), 0755)
	}
	isLink := func(f string) bool {
		fi, err := os.Lstat(f)
		return err == nil && fi.Mode()&os.ModeSymlink != 0
	}
	t0 := time.Now()
	if kind == 12 || kind == 13 { // it may keep trying to take the lock for 15 minutes
		p := k.start()
		select {
		case <-p.Done():
		case <-time.After(4 * time.Second):
			p.Kill(syscall.SIGKILL)
		}
		res := p.Wait(10 * time.Second)
		k.finish(what, res, t0, mustFail)
	} else {
		res := k.start().Wait(60 * time.Second)
		if kind == 7 || kind == 8 { // or was the link replaced by a file?
			mustFail = isLink(k.ctPath) || isLink(filepath.Join(k.knownPath, id))
		}
		k.finish(what, res, t0, mustFail)
		k.lockFree(what)
	}
	run.Eval("files/" + what)
}

func c10Signals(run *mon.Run, r *rand.Rand, i int) {
	k := newKnown(run, r)
	defer k.Close()
	// more to write, so that a signal can hit the writing
	for j := 0; j < 40; j++ {
		var ss []string
		for m := 0; m < 200; m++ {
			ss = append(ss, k.serial())
		}
		writeList(k.dir, Bin{hourName(time.Now(), 100+j), k.issuers[j%len(k.issuers)].ID()}, uniq(ss))
	}
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL}[i%3]
	t0 := time.Now()
	p := k.start()
	if i%2 == 0 {
		var cnt atomic.Int64
		n := int64(1 + r.Intn(40))
		d := time.Duration(r.Intn(3000)) * time.Microsecond
		k.px.SetDecide(func(int, []string) redisx.Action {
			if cnt.Add(1) == n {
				return redisx.Action{Post: func() { go func() { time.Sleep(d); p.Kill(sig) }() }}
			}
			return redisx.Action{}
		})
	} else {
		go func() {
			for start := time.Now(); time.Since(start) < 5*time.Second; {
				if _, err := os.Stat(k.ctPath); err == nil {
					break
				}
				time.Sleep(100 * time.Microsecond)
			}
			time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
			p.Kill(sig)
		}()
	}
	res := p.Wait(60 * time.Second)
	k.finish(fmt.Sprintf("%v", sig), res, t0, false)
	if sig != syscall.SIGKILL {
		if res.Code >= 0 && res.Signal == 0 {
			// ended by itself
			k.lockFree(sig.String())
		}
	}
	run.Eval(fmt.Sprintf("signal/%v/%d/%v", sig, i%2, res.Code == 0))
}

// c10Lock: while another party holds the lock nothing happens; when it is
// released the run goes on.
func c10Lock(run *mon.Run, r *rand.Rand, i int) {
	k := newKnown(run, r)
	defer k.Close()
	tok, err := k.direct.AcquireCommitLock()
	if err != nil || tok == nil {
		mon.Infra("lock: %v", err)
	}
	tree, dump := treeHash(k.dir), cacheDump(k.rs)
	t0 := time.Now()
	p := k.start()
	time.Sleep(time.Duration(300+r.Intn(900)) * time.Millisecond)
	if treeHash(k.dir) != tree || cacheDump(k.rs) != dump {
		run.Violation("without-lock", "storage or cache changed while another party held the lock", nil)
	}
	select {
	case <-p.Done():
		if res := p.Wait(time.Second); res.Code == 0 {
			run.Violation("without-lock", "reported success while another party held the lock", nil)
			return
		}
	default:
	}
	if h := holder(k.rs); h != *tok {
		run.Violation("lock-stolen", "the other party's lock is gone", nil)
	}
	k.direct.ReleaseCommitLock(*tok)
	res := p.Wait(60 * time.Second)
	if res.Code != 0 {
		run.Violation("failed", fmt.Sprintf("after the lock was released: %v %s", res, tail(res.Stderr)), nil)
		return
	}
	k.verifyOutput("lock held for a while", t0)
	k.lockFree("lock held for a while")
	run.Eval(fmt.Sprintf("lock/%d", i))
	run.Count("runs that waited for the lock", 1)
}

// c10During: aggregate-known is paused somewhere on the way to its outputs and
// another party commits, lock permitting. What was written must be one state
// of storage.
func c10During(run *mon.Run, r *rand.Rand, i int) {
	k := newKnown(run, r)
	defer k.Close()
	k.threads = 1 + i%2
	for j := 0; j < 60; j++ { // much to read
		var ss []string
		for m := 0; m < 300; m++ {
			ss = append(ss, k.serial())
		}
		writeList(k.dir, Bin{hourName(time.Now(), 100+j), k.issuers[j%len(k.issuers)].ID()}, uniq(ss))
	}
	if err := k.Put(k.Make(300)); err != nil {
		mon.Infra("%v", err)
	}
	what, reached := "", func() bool { return true }
	epoch := filepath.Join(k.dir, "epoch")
	e0, _ := os.ReadFile(epoch)
	switch i % 3 {
	case 0:
		what = "paused after the coverage output was written"
		reached = func() bool { fi, err := os.Stat(k.ctPath); return err == nil && fi.Size() > 0 }
	case 1:
		what = "paused when the first known file was there"
		reached = func() bool { l, err := os.ReadDir(k.knownPath); return err == nil && len(l) > 0 }
	case 2:
		what = "paused after the commit"
		reached = func() bool { e, err := os.ReadFile(epoch); return err == nil && !bytes.Equal(e, e0) }
	}
	late := time.Duration(r.Intn(3)*r.Intn(1500)) * time.Microsecond
	t0 := time.Now()
	p := k.start()
	for running := true; running && !reached() && time.Since(t0) < 20*time.Second; {
		select {
		case <-p.Done():
			running = false
		default:
			time.Sleep(20 * time.Microsecond)
		}
	}
	time.Sleep(late)
	p.Kill(syscall.SIGSTOP)
	time.Sleep(20 * time.Millisecond)
	s1 := readStorage(k.dir)
	committed := false
	select {
	case <-p.Done():
		what = "after the end"
	default:
		if tok, err := k.direct.AcquireCommitLock(); err == nil && tok != nil {
			if err := k.Put(k.Make(400)); err != nil {
				mon.Infra("%v", err)
			}
			for _, l := range k.logs {
				l.Max += uint64(1 + r.Intn(200000000))
			}
			k.SaveLogs()
			committed = k.db.Commit(*tok) == nil
			k.direct.ReleaseCommitLock(*tok)
		}
	}
	s2 := readStorage(k.dir)
	p.Kill(syscall.SIGCONT)
	res := p.Wait(60 * time.Second)
	run.Count(fmt.Sprintf("%s: another party's commit done=%v, success=%v", what, committed, res.Code == 0), 1)
	run.Eval(fmt.Sprintf("during/%s/%v/%v", what, committed, res.Code == 0))
	if res.TimedOut || res.Code != 0 {
		if !committed { // a pause is no reason to fail
			run.Violation("failed", fmt.Sprintf("%s: %v %s", what, res, tail(res.Stderr)), nil)
		}
		return
	}
	k.lockFree(what)
	if !committed {
		k.verifyOutput(what, t0)
		return
	}
	var why []string
	for _, s := range []*Storage{s1, s2, readStorage(k.dir)} {
		pr := k.problems(s, t0)
		if len(pr) == 0 {
			return
		}
		why = append(why, pr[0][0]+": "+pr[0][1])
	}
	run.Violation("mixed-states", fmt.Sprintf("%s and another party was granted the lock meanwhile: the outputs are neither the storage before its commit (%s) nor after (%s)", what, why[0], why[1]), nil)
}

// c10Sys: system calls of reading storage and creating outputs fail.
func c10Sys(run *mon.Run, r *rand.Rand, i int) {
	k := newKnown(run, r)
	defer k.Close()
	// the serials are in storage already, so the commit has little to do
	if err := k.Commit(); err != nil {
		run.Violation("failed", err.Error(), nil)
		return
	}
	os.MkdirAll(k.knownPath, 0755)
	call := []string{"openat", "getdents64", "fsync", "renameat"}[i%4]
	n := 1 + i/4
	inj := fmt.Sprintf("%s:error=EIO:when=%d", call, n)
	if i%8 >= 4 {
		inj += "+"
	}
	// only files of this installation count
	args := []string{"-f", "-qq", "-o", "/dev/null", "-e", "trace=" + call, "-e", "inject=" + inj}
	if call == "openat" {
		s := readStorage(k.dir)
		for _, b := range sortedBins(s.Bins) {
			if k.enrolled[b.Iss] {
				args = append(args, "-P", filepath.Join(k.dir, "serials", "issuer::"+b.Iss, "serials::"+b.Exp+"::"+b.Iss))
			}
		}
	}
	t0 := time.Now()
	res := proc.Run("strace", append(append(args, filepath.Join(binDir, "aggregate-known")), k.args()...), append(k.env(), "GOMAXPROCS=2"), filepath.Dir(k.dir), 60*time.Second)
	k.finish("strace "+inj, res, t0, false)
	run.Eval(fmt.Sprintf("sys/%s/%v", inj, res.Code == 0))
	run.Count("runs with a failing system call", 1)
}

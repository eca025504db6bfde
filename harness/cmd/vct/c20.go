package main

import (
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"vharness/lib/ctsrv"
	"vharness/lib/mon"
	"vharness/lib/proc"
)

// settings is a fake Remote Settings server.
type settings struct {
	mu     sync.Mutex
	ts     *httptest.Server
	data   []map[string]any
	mode   string
	served int // answers given since the last change
	stray  []string
}

func newSettings() *settings {
	s := &settings{}
	s.ts = httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		mode := s.mode
		b, _ := json.Marshal(map[string]any{"data": s.data})
		if r.URL.Path != "/v1/buckets/security-state/collections/ct-logs/records" {
			s.stray = append(s.stray, r.URL.Path)
		}
		s.mu.Unlock()
		switch mode {
		case "500":
			w.WriteHeader(500)
			w.Write([]byte(`{"data": []}`))
		case "404":
			w.WriteHeader(404)
		case "garbage":
			w.Write([]byte("<html>not json"))
		case "nodata":
			w.Write([]byte(`{"error": []}`))
		case "truncated":
			w.Header().Set("Content-Length", fmt.Sprint(len(b)+50))
			w.Write(b[:len(b)/2])
		case "abort":
			s.count()
			panic(http.ErrAbortHandler)
		case "wrongtype":
			w.Write([]byte(`{"data": {"a": 1}}`))
		default:
			w.Write(b)
		}
		s.count()
	}))
	s.ts.Config.ErrorLog = quiet
	return s
}

func (s *settings) count() { s.mu.Lock(); s.served++; s.mu.Unlock() }

func (s *settings) set(mode string, data []map[string]any) {
	s.mu.Lock()
	s.mode, s.data, s.served = mode, data, 0
	s.mu.Unlock()
}

// await waits until the program has fetched the current answer and had time
// to act on it (it fetches again).
func (s *settings) await(n int, p *proc.Proc) bool {
	for t0 := time.Now(); time.Since(t0) < 60*time.Second; time.Sleep(20 * time.Millisecond) {
		s.mu.Lock()
		k := s.served
		s.mu.Unlock()
		if k >= n {
			return true
		}
		select {
		case <-p.Done():
			return false
		default:
		}
	}
	return false
}

// overlap watches for two downloaders working on one log: a job starts by
// asking for the tree head, and a downloader does one thing at a time.
type overlap struct {
	mu   sync.Mutex
	in   map[string]int
	max  map[string]int
	hold time.Duration
}

func (o *overlap) hook(l *LogInfo, inner func(q ctsrv.Req) *ctsrv.Resp) func(q ctsrv.Req) *ctsrv.Resp {
	n := l.Name()
	return func(q ctsrv.Req) *ctsrv.Resp {
		if inner != nil {
			if r := inner(q); r != nil {
				return r
			}
		}
		if q.Ep == "sth" || q.Ep == "checkpoint" || (!l.Tiled && q.Ep == "entries") {
			o.mu.Lock()
			o.in[n]++
			if o.in[n] > o.max[n] {
				o.max[n] = o.in[n]
			}
			o.mu.Unlock()
			time.Sleep(o.hold)
			o.mu.Lock()
			o.in[n]--
			o.mu.Unlock()
		}
		return nil
	}
}

func reqCount(l *LogInfo) int {
	l.Lock()
	defer l.Unlock()
	return len(l.Reqs)
}

// static: local and one-shot remote enrollment, with misbehaving neighbours.
func c20static(run *mon.Run, i int) {
	name := fmt.Sprintf("static%d", i)
	e := NewEnv(run, name, []uint64{16, 64, 256}[i%3])
	defer e.Close()
	rs := newSettings()
	defer rs.ts.Close()
	ca := filepath.Join(e.dir, "ca.pem")
	os.WriteFile(ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: rs.ts.Certificate().Raw}), 0644)
	var good, broken, off []*LogInfo
	for k := 0; k < 12; k++ {
		l := e.AddLog(e.r.Intn(3) == 0, 3600)
		e.Grow(l, 4+e.r.Intn(100), e.NormalTS(l))
		switch e.r.Intn(4) {
		case 0:
			l.Enrolled = false
			off = append(off, l)
		case 1:
			l.Done = true
			if e.r.Intn(3) == 0 { // the log has something that nobody can read
				x := e.w.New(ctsrv.X509, l.Entries[len(l.Entries)-1].TS+1)
				x.Cert, x.Eligible, x.Note = []byte{0x30, 3, 1, 2, 3}, false, "unreadable"
				l.Append(x)
				e.Grow(l, e.r.Intn(5), e.NormalTS(l))
				run.Count("broken neighbours with an unreadable entry", 1)
			}
			broken = append(broken, l)
		default:
			good = append(good, l)
		}
		l.PubAll()
	}
	breakAll := func() {
		for _, l := range broken {
			mode := e.r.Intn(10) // 9: no more than what is in it
			l.Lock()
			l.TamperProof, l.TamperItems = nil, nil
			switch mode {
			case 6: // a proof of the right length with a wrong hash
				l.TamperProof = func(old, size uint64, p [][]byte) [][]byte {
					if len(p) > 0 {
						h := append([]byte(nil), p[len(p)-1]...)
						h[3] ^= 1
						p = append(append([][]byte(nil), p[:len(p)-1]...), h)
					}
					return p
				}
			case 7: // a proof of a wrong length
				l.TamperProof = func(old, size uint64, p [][]byte) [][]byte {
					return append(append([][]byte(nil), p...), make([]byte, 32))
				}
			case 8: // entries in another order
				l.TamperItems = func(start uint64, items []ctsrv.Item) []ctsrv.Item {
					if len(items) > 1 {
						items[0], items[1] = items[1], items[0]
					}
					return items
				}
			}
			l.Unlock()
			l.SetHook(func(q ctsrv.Req) *ctsrv.Resp {
				switch mode {
				case 0:
					return &ctsrv.Resp{Status: 404}
				case 1:
					return &ctsrv.Resp{Body: []byte("junk")}
				case 2:
					if q.Ep == "entries" || q.Ep == "data" {
						return &ctsrv.Resp{Status: 404}
					}
				case 3:
					if q.Ep == "proof" || q.Ep == "issuer" {
						return &ctsrv.Resp{Body: []byte("{}")}
					}
				case 4:
					if q.Ep == "entries" {
						return &ctsrv.Resp{Body: []byte(`{"entries":[{"leaf_input":"AAAA","extra_data":"AAAA"}]}`)}
					}
				case 5:
					return &ctsrv.Resp{Delay: 300 * time.Millisecond}
				}
				return nil
			})
			run.Count(fmt.Sprintf("broken neighbour mode %d", mode), 1)
		}
	}
	local, remote := []map[string]any{}, []map[string]any{}
	where := e.r.Intn(3)
	for _, l := range e.logs {
		m := l.Meta(l.Enrolled)
		if l.Done && e.r.Intn(5) == 0 {
			m["logID"] = "AAAA" // not a log ID
		}
		if l.Done && l.Tiled && e.r.Intn(3) == 0 {
			m["key"] = "AAAA"
		}
		switch {
		case where == 0 || where == 2 && e.r.Intn(2) == 0:
			local = append(local, m)
		default:
			remote = append(remote, m)
		}
	}
	rs.set("", remote)
	lj, _ := json.Marshal(local)
	for k := 0; k < 12; k++ {
		e.Age()
		breakAll()
		env := []string{"ctLogMetadata=" + string(lj), "SSL_CERT_FILE=" + ca}
		if len(local) == 0 {
			env = env[1:]
		}
		if where > 0 {
			env = append(env, "remoteSettingsURL="+rs.ts.URL+"/v1/")
		}
		res := e.Run(RunOpt{NoMeta: true, Env: env})
		if res.Code == 2 && where == 0 && len(good)+len(broken) == 0 {
			break
		}
		if res.TimedOut || res.Code != 0 || res.Crashed() {
			run.Violation("run-failed", fmt.Sprintf("%s: ct-fetch ended with %s", name, res), e.Detail(nil))
			return
		}
		s := e.Observe()
		left := 0
		for _, l := range good {
			st := s.States[l.ShortURL()]
			if st.LastUpdateTime.IsZero() || st.MinEntry != 0 || st.MaxEntry != l.Size-1 {
				left++
			}
		}
		if left == 0 && k >= 2 {
			break
		}
	}
	s := e.Observe()
	e.Report(e.Check(s))
	for _, l := range good {
		st := s.States[l.ShortURL()]
		if st.LastUpdateTime.IsZero() || st.MinEntry != 0 || st.MaxEntry != l.Size-1 {
			run.Violation("enrolled-not-ingested", fmt.Sprintf("%s: enrolled log %s was not ingested (claim %d-%d of %d, %d requests)", name, l.Name(), st.MinEntry, st.MaxEntry, l.Size, reqCount(l)), e.Detail(l))
		}
		run.Eval(name + l.Name())
	}
	for _, l := range off {
		if n := reqCount(l); n > 0 {
			run.Violation("unenrolled-contacted", fmt.Sprintf("%s: log %s is not enrolled but got %d requests", name, l.Name(), n), e.Detail(l))
		}
		if _, ok := s.States[l.ShortURL()]; ok {
			run.Violation("unenrolled-ingested", fmt.Sprintf("%s: log %s is not enrolled but has a saved state", name, l.Name()), e.Detail(l))
		}
		run.Eval(name + l.Name())
	}
	run.Count("enrolled logs ingested", len(good))
	run.Count("logs not enrolled", len(off))
	run.Sample("static", map[string]any{"good": len(good), "broken": len(broken), "not enrolled": len(off), "source": []string{"local", "remote", "both"}[where]})
}

// dynamic: enrollment changes while ct-fetch runs.
func c20dynamic(run *mon.Run, i int) {
	name := fmt.Sprintf("dynamic%d", i)
	e := NewEnv(run, name, 16)
	defer e.Close()
	rs := newSettings()
	defer rs.ts.Close()
	ca := filepath.Join(e.dir, "ca.pem")
	os.WriteFile(ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: rs.ts.Certificate().Raw}), 0644)
	ov := &overlap{in: map[string]int{}, max: map[string]int{}, hold: 30 * time.Millisecond}
	for k := 0; k < 6; k++ {
		l := e.AddLog(k%3 == 2, 3600)
		e.Grow(l, 40+e.r.Intn(60), e.NormalTS(l))
		l.PubAll()
		l.Enrolled = e.r.Intn(2) == 0
		l.SetHook(ov.hook(l, nil))
	}
	// The last log answers slowly, so that a job lasts long.
	slow := e.logs[0]
	slow.Chunk = func(s, en uint64) uint64 { return 2 }
	slow.SetHook(ov.hook(slow, func(q ctsrv.Req) *ctsrv.Resp {
		if q.Ep == "entries" {
			time.Sleep(350 * time.Millisecond)
		}
		return nil
	}))
	data := func() []map[string]any {
		d := []map[string]any{}
		for _, l := range e.logs {
			d = append(d, l.Meta(l.Enrolled))
		}
		return d
	}
	rs.set("", data())
	stop := make(chan struct{})
	done := make(chan struct{})
	fail := func(key, f string, a ...any) { run.Violation(key, name+": "+fmt.Sprintf(f, a...), e.Detail(nil)) }
	res := e.Run(RunOpt{NoMeta: true, Forever: true, Timeout: 400 * time.Second,
		Env: []string{"remoteSettingsURL=" + rs.ts.URL + "/v1/", "remoteSettingsUpdateInterval=1", "SSL_CERT_FILE=" + ca},
		Stop: func() bool {
			select {
			case <-stop:
				return true
			default:
				return false
			}
		},
		OnStart: func(p *proc.Proc) {
			defer close(done)
			defer close(stop)
			verify := func(what string) {
				for _, l := range e.logs {
					if l.Enrolled {
						n := reqCount(l)
						t0 := time.Now()
						for reqCount(l) == n && time.Since(t0) < 30*time.Second {
							time.Sleep(10 * time.Millisecond)
						}
						if reqCount(l) == n {
							fail("enrolled-not-contacted", "after %s the enrolled log %s was not contacted for 30 s", what, l.Name())
							return
						}
					} else {
						ok := false
						t0 := time.Now()
						n, since := reqCount(l), time.Now()
						for time.Since(t0) < 40*time.Second {
							time.Sleep(20 * time.Millisecond)
							if k := reqCount(l); k != n {
								n, since = k, time.Now()
							}
							if time.Since(since) > 1200*time.Millisecond {
								ok = true
								break
							}
						}
						if !ok {
							fail("unenrolled-still-contacted", "after %s the log %s, which is not enrolled, was still being contacted 40 s later", what, l.Name())
							return
						}
					}
					run.Eval(fmt.Sprintf("%s/%s/%s/%v", name, what, l.Name(), l.Enrolled))
				}
			}
			for step := 0; step < 4; step++ {
				if !rs.await(2, p) {
					fail("settings-not-polled", "ct-fetch stopped asking for the log list (step %d)", step)
					return
				}
				verify(fmt.Sprintf("step %d", step))
				mode := []string{"500", "404", "garbage", "nodata", "truncated", "abort", "wrongtype"}[e.r.Intn(7)]
				// A failing answer that would change everything.
				flipped := []map[string]any{}
				for _, l := range e.logs {
					flipped = append(flipped, l.Meta(!l.Enrolled))
				}
				rs.set(mode, flipped)
				if !rs.await(2, p) {
					fail("settings-not-polled", "ct-fetch stopped asking for the log list after a %s answer", mode)
					return
				}
				verify("bad answer " + mode)
				run.Count("bad answers "+mode, 1)
				for _, l := range e.logs[1:] {
					if e.r.Intn(2) == 0 {
						l.Enrolled = !l.Enrolled
						run.Count("enrollment changes", 1)
					}
				}
				// The slow log is withdrawn and enrolled again within one job.
				slow.Enrolled = true
				rs.set("", data())
				rs.await(1, p)
				slow.Enrolled = false
				rs.set("", data())
				rs.await(1, p)
				slow.Enrolled = true
				rs.set("", data())
				rs.await(1, p)
				run.Count("quick re-enrollments", 1)
				if e.r.Intn(2) == 0 {
					slow.Enrolled = false
				}
				rs.set("", data())
			}
		}})
	select {
	case <-done:
	case <-time.After(5 * time.Second):
	}
	if res.TimedOut || res.Crashed() || res.Signal == syscall.SIGKILL {
		fail("crash-or-hang", "ct-fetch ended with %s", res)
	}
	ov.mu.Lock()
	for n, m := range ov.max {
		if m > 1 {
			fail("two-downloaders", "%d downloaders worked on log %s at the same time", m, n)
		}
	}
	ov.mu.Unlock()
	e.Report(e.Check(e.Observe()))
	run.Sample("dynamic", map[string]any{"world": name, "max downloaders": fmt.Sprint(ov.max)})
}

func c20(run *mon.Run) {
	run.Rule = "Static: 12 logs per world, enrolled locally, remotely or not at all, some broken (HTTP errors, junk, bad log ID or key, slow); every working enrolled log must be completely ingested, others never contacted. Dynamic: ct-fetch runs while Remote Settings enrolls and withdraws logs and serves failing answers; enrolled logs must keep being contacted, withdrawn ones go quiet, and the log servers must never see two jobs of one log overlap, also when a log is withdrawn and enrolled again within one job. One evaluation per log and phase."
	run.Assume = []string{"a log is considered ignored after 30 s without a request and still in use if it is contacted every 1.2 s for 40 s"}
	nd := run.Pick(8, 48)
	n := run.Pick(40, 300)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		mon.Par(8, nd, func(i int) { c20dynamic(run, i) })
	}()
	mon.Par(4, n, func(i int) {
		if run.Violations() > 10 {
			return
		}
		c20static(run, i)
	})
	wg.Wait()
}

package main

import (
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"vharness/lib/ctsrv"
	"vharness/lib/mon"
	"vharness/lib/proc"
)

// round is one pass over a log as the log saw it. The pass ends after lo (its
// last answer) and before hi (the request for the next tree head).
type round struct {
	begin, lo, hi time.Time
	open          int
	fatal         bool
}

// rounds watches the passes of ct-fetch over one log.
type rounds struct {
	mu   sync.Mutex
	name string
	rs   []*round
}

func (w *rounds) hook(l *LogInfo, plan func(k int, q ctsrv.Req) (time.Duration, bool)) func(q ctsrv.Req) *ctsrv.Resp {
	return func(q ctsrv.Req) *ctsrv.Resp {
		now := time.Now()
		w.mu.Lock()
		if q.Ep == "sth" || q.Ep == "checkpoint" {
			if n := len(w.rs); n > 0 {
				w.rs[n-1].hi = now
			}
			w.rs = append(w.rs, &round{begin: now})
		}
		if len(w.rs) == 0 {
			w.mu.Unlock()
			return nil
		}
		k := len(w.rs) - 1
		r := w.rs[k]
		follow := !l.Tiled || q.Ep == "checkpoint"
		if follow {
			r.open++
		}
		w.mu.Unlock()
		d, fatal := plan(k, q)
		time.Sleep(d)
		w.mu.Lock()
		r.fatal = r.fatal || fatal
		if follow {
			r.open--
			r.lo = time.Now()
		}
		w.mu.Unlock()
		if fatal {
			return &ctsrv.Resp{Body: []byte(`{"consistency":["AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA="]}`)}
		}
		return nil
	}
}

type span struct {
	lo, hi time.Time // hi zero: not seen to end
	log    string
}

func (w *rounds) spans() []span {
	w.mu.Lock()
	defer w.mu.Unlock()
	out := []span{}
	for _, r := range w.rs {
		if r.fatal || r.open > 0 || r.lo.IsZero() {
			continue
		}
		out = append(out, span{r.lo, r.hi, w.name})
	}
	return out
}

type probe struct {
	s, e   time.Time
	status int
	retry  string
	body   string
	err    string
}

func c33case(run *mon.Run, i int) {
	name := fmt.Sprintf("health%d", i)
	e := NewEnv(run, name, 16)
	defer e.Close()
	pd := 1 + e.r.Intn(3)
	limit := 2 * time.Duration(pd) * time.Second
	kind := []string{"late-start", "stall", "fatal", "busy", "stall-entries", "two-logs", "stall"}[i%7]
	length := 13 * time.Second
	rsv := newSettings()
	defer rsv.ts.Close()
	ca := filepath.Join(e.dir, "ca.pem")
	os.WriteFile(ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: rsv.ts.Certificate().Raw}), 0644)
	nlogs := 1
	if kind == "two-logs" {
		nlogs = 2 + e.r.Intn(2)
	}
	var ws []*rounds
	start := time.Now()
	for k := 0; k < nlogs; k++ {
		tiled := e.r.Intn(3) == 0 && kind != "fatal" && kind != "stall-entries"
		l := e.AddLog(tiled, 3600)
		n := 40
		if kind == "fatal" || kind == "stall-entries" || kind == "busy" {
			n = 600
		}
		e.Grow(l, n, e.NormalTS(l))
		l.PubAll()
		w := &rounds{name: l.Name()}
		ws = append(ws, w)
		stallAt := 1 + e.r.Intn(6)
		stall := limit + time.Duration(500+e.r.Intn(4000))*time.Millisecond
		late := time.Duration(1000+e.r.Intn(6000)) * time.Millisecond
		slow := time.Duration(e.r.Intn(120)) * time.Millisecond
		var once sync.Once
		l.SetHook(w.hook(l, func(k int, q ctsrv.Req) (time.Duration, bool) {
			head := q.Ep == "sth" || q.Ep == "checkpoint"
			d := time.Duration(0)
			hit := false
			switch kind {
			case "late-start":
				if k == 0 && head {
					return late, false
				}
			case "stall", "two-logs":
				if k == stallAt && head {
					return stall, false
				}
			case "stall-entries":
				if k >= stallAt && q.Ep == "entries" {
					once.Do(func() { hit = true })
					if hit {
						return stall, false
					}
				}
				d = slow
			case "fatal":
				if k >= stallAt-1 && q.Ep == "proof" {
					return 0, true
				}
				d = slow
			case "busy":
				d = slow
			}
			return d, false
		}))
	}
	data := []map[string]any{}
	for _, l := range e.logs {
		data = append(data, l.Meta(true))
	}
	rsv.set("", data)
	addr := fmt.Sprintf("127.%d.%d.%d:8080", 1+os.Getpid()%250, 1+(os.Getpid()/250)%250, 1+i%250)
	var probes []probe
	var pmu sync.Mutex
	stop := make(chan struct{})
	done := make(chan struct{})
	lj, _ := json.Marshal(data)
	env := []string{fmt.Sprintf("pollingDelay=%d", pd), "healthAddr=" + addr, "SSL_CERT_FILE=" + ca}
	// With Remote Settings the program goes on when its only downloader ends.
	if kind == "fatal" || e.r.Intn(3) == 0 {
		env = append(env, "remoteSettingsURL="+rsv.ts.URL+"/v1/", "remoteSettingsUpdateInterval=1")
	} else {
		env = append(env, "ctLogMetadata="+string(lj))
	}
	cl := &http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	gap := time.Duration(40+e.r.Intn(60)) * time.Millisecond
	res := e.Run(RunOpt{NoMeta: true, Forever: true, Timeout: 120 * time.Second, Env: env,
		Stop: func() bool {
			select {
			case <-stop:
				return true
			default:
				return false
			}
		},
		OnStart: func(p *proc.Proc) {
			defer close(done)
			defer close(stop)
			for time.Since(start) < length {
				select {
				case <-p.Done():
					return
				default:
				}
				pr := probe{s: time.Now()}
				r, err := cl.Get("http://" + addr + "/health")
				if err == nil {
					b, _ := io.ReadAll(r.Body)
					r.Body.Close()
					pr.status, pr.retry, pr.body = r.StatusCode, r.Header.Get("Retry-After"), string(b)
				} else {
					pr.err = err.Error()
				}
				pr.e = time.Now()
				pmu.Lock()
				probes = append(probes, pr)
				pmu.Unlock()
				time.Sleep(gap)
			}
		}})
	<-done
	if res.Crashed() || res.TimedOut {
		run.Violation("crash-or-hang", fmt.Sprintf("%s: ct-fetch ended with %s", name, res), e.Detail(nil))
		return
	}
	var spans []span
	first := time.Time{}
	for _, w := range ws {
		spans = append(spans, w.spans()...)
		w.mu.Lock()
		if len(w.rs) > 0 && (first.IsZero() || w.rs[0].begin.Before(first)) {
			first = w.rs[0].begin
		}
		w.mu.Unlock()
	}
	sort.Slice(spans, func(a, b int) bool { return spans[a].lo.Before(spans[b].lo) })
	rel := func(t time.Time) float64 { return float64(t.Sub(start).Milliseconds()) / 1000 }
	hist := func() []string {
		out := []string{}
		for _, s := range spans {
			if s.hi.IsZero() {
				out = append(out, fmt.Sprintf("%s: a pass ended after %.3f", s.log, rel(s.lo)))
			} else {
				out = append(out, fmt.Sprintf("%s: a pass ended in %.3f-%.3f", s.log, rel(s.lo), rel(s.hi)))
			}
		}
		return out
	}
	answered := 0
	seen := map[int]int{}
	for _, p := range probes {
		if p.err != "" {
			continue
		}
		answered++
		seen[p.status]++
		bad := func(key, why string) {
			run.Violation(key, fmt.Sprintf("%s (%s, pollingDelay %d): the health endpoint answered %d %q at %.3f s, but %s", name, kind, pd, p.status, p.body, rel(p.s), why),
				map[string]any{"passes": hist(), "answer": p.status, "asked": rel(p.s), "answered": rel(p.e), "kind": kind, "pollingDelay": pd})
		}
		var ended, may, recent, mayRecent bool
		for _, s := range spans {
			certain := !s.hi.IsZero() && !s.hi.After(p.s)
			possible := !s.lo.After(p.e)
			ended = ended || certain
			may = may || possible
			recent = recent || certain && !s.lo.Before(p.e.Add(-limit))
			mayRecent = mayRecent || possible && (s.hi.IsZero() || !s.hi.Before(p.s.Add(-limit)))
		}
		switch p.status {
		case 200:
			if !mayRecent {
				bad("healthy-without-progress", fmt.Sprintf("no pass over a log had ended in the %v before", limit))
			}
		case 503:
			if ended {
				bad("not-ready-after-progress", "a pass over a log had ended before")
			}
			if p.retry == "" {
				bad("no-retry-after", "without saying when to retry")
			}
		case 500:
			if recent {
				bad("unhealthy-with-progress", fmt.Sprintf("a pass over a log had ended less than %v before", limit))
			}
			if !may {
				bad("unhealthy-before-progress", "no pass over a log had ended yet, which is 503")
			}
		default:
			bad("other-status", "it has three answers")
		}
		if !strings.HasPrefix(p.body, map[bool]string{true: "ok", false: "error"}[p.status == 200]) {
			bad("wrong-text", "the text does not say so")
		}
	}
	if answered == 0 && !first.IsZero() && time.Since(first) > 3*time.Second {
		run.Violation("no-answer", fmt.Sprintf("%s: nothing answered at the health address %s in %d attempts", name, addr, len(probes)), map[string]any{"probes": len(probes)})
	}
	run.Count("health answers", answered)
	for s, n := range seen {
		run.Count(fmt.Sprintf("answers %d", s), n)
	}
	run.Count("passes over logs", len(spans))
	run.Count("scenario "+kind, 1)
	run.Eval(fmt.Sprintf("%s/%d/%v", kind, pd, seen))
	run.Sample("health", map[string]any{"kind": kind, "pollingDelay": pd, "answers": fmt.Sprint(seen), "passes": len(spans)})
}

func c33(run *mon.Run) {
	run.Rule = "ct-fetch runs for 13 s against logs that answer at once, late, stall in the middle or break verification, with a polling delay of 1-3 s, while a client asks /health every 40-100 ms. The logs see each pass over them begin (request for the tree head) and give its last answer, which bounds when the pass ended. 200 needs a pass that may have ended within two polling delays; 500 needs that none certainly did; 503 (with Retry-After) that none had ended at all. One evaluation per run."
	run.Assume = []string{"runs are shorter than the 15 s after which the database thread also reports progress"}
	n := run.Pick(56, 560)
	mon.Par(28, n, func(i int) {
		if run.Violations() > 10 {
			return
		}
		c33case(run, i)
	})
}

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/mozilla/crlite/go/downloader"

	"vharness/lib/crlw"
	"vharness/lib/inot"
	"vharness/lib/mon"
)

type ident string

func (i ident) ID() string { return string(i) }

// bodyVerifier accepts exactly the given contents.
type bodyVerifier struct{ ok [][]byte }

func (v *bodyVerifier) IsValid(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	for _, o := range v.ok {
		if bytes.Equal(b, o) {
			return nil
		}
	}
	return errors.New("not valid")
}

type recAuditor struct {
	mu   sync.Mutex
	down []string
	ver  []string
}

func (a *recAuditor) FailedDownload(i downloader.DownloadIdentifier, u *url.URL, t *downloader.DownloadTracer, err error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.down = append(a.down, i.ID()+" "+u.String())
}
func (a *recAuditor) FailedVerifyUrl(i downloader.DownloadIdentifier, u *url.URL, t *downloader.DownloadTracer, err error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.ver = append(a.ver, i.ID()+" "+u.String())
}
func (a *recAuditor) FailedVerifyPath(i downloader.DownloadIdentifier, u *url.URL, p string, err error) {
}

func body(r *rand.Rand) []byte {
	n := []int{0, 1, 2, 17, 1000, 4096, 70000, 200000}[r.Intn(8)]
	b := make([]byte, n)
	r.Read(b)
	return b
}

func c13(run *mon.Run) {
	run.Level = "fault_enumeration"
	run.Rule = "a download (by prior file, server behaviour sequence, retries allowed and outcome) whose result was compared with what the server has"
	mon.Par(16, run.Pick(5000, 60000), func(i int) {
		if run.Violations() > 10 {
			return
		}
		r := run.Rand("c13", i)
		srv := crlw.NewServer()
		defer srv.Close()
		dir, _ := os.MkdirTemp(run.Scratch, "dl")
		defer os.RemoveAll(dir)
		switch i % 5 {
		case 0, 1:
			c13Single(run, r, srv, dir, i)
		case 2:
			c13Verified(run, r, srv, dir, i)
		case 3:
			c13History(run, r, srv, dir, i)
		default:
			c13Cancel(run, r, srv, dir, i)
		}
	})
}

// c13fail is one way for a fetch to go wrong.
func c13fail(r *rand.Rand, b []byte, timeout time.Duration) *crlw.Resp {
	rp := &crlw.Resp{Body: b, Chunked: r.Intn(3) == 0, LastMod: time.Now().Add(3 * time.Second)}
	if len(b) > 0 {
		rp.Cut = r.Intn(len(b))
	}
	switch k := r.Intn(10); {
	case k == 0:
		rp.Kind = "refuse"
	case k <= 2:
		rp.Kind, rp.Code = "status", []int{204, 301, 304, 400, 401, 403, 404, 410, 416, 429, 500, 502, 503}[r.Intn(13)]
		if rp.Code == 204 || rp.Code == 304 {
			rp.Body = nil
		} else if r.Intn(2) == 0 {
			rp.Body = []byte("an error")
		}
	case k <= 4:
		rp.Kind = "trunc"
	case k <= 6:
		rp.Kind = "reset"
	case k == 7 && timeout > 0 && timeout < time.Second:
		rp.Kind = "stall"
		if r.Intn(2) == 0 {
			rp.HeadLag = 20 * time.Second
		}
	case k == 8:
		rp.Kind = "part"
		rp.Cut = min(1, len(b))
		if len(b) > 1 {
			rp.Cut = 1 + r.Intn(len(b)-1)
		}
		rp.HeadErr = r.Intn(2) == 0
	case k == 9:
		rp.Kind, rp.Target = "redirect", "/loop"
	default:
		rp.Kind = "trunc"
	}
	if len(rp.Body) == 0 && rp.Kind != "status" && rp.Kind != "redirect" {
		rp.Kind = "refuse"
	}
	switch r.Intn(4) {
	case 0:
		rp.NoHead = true
	case 1:
		rp.HeadErr = true
	}
	return rp
}

type plan struct {
	rs    []*crlw.Resp
	fails int
	desc  string
	loose bool // one attempt may use up more than one answer
	ok    bool
}

func c13plan(r *rand.Rand, good *crlw.Resp, retries int, timeout time.Duration) (p plan) {
	p.fails = r.Intn(retries + 3)
	if r.Intn(3) == 0 {
		p.fails = 0
	}
	p.ok = p.fails <= retries
	if r.Intn(6) == 0 {
		p.fails, p.ok = 1+r.Intn(3), false
	} else {
		defer func() { p.rs = append(p.rs, good); p.desc += good.Kind }()
	}
	for i := 0; i < p.fails; i++ {
		f := c13fail(r, good.Body, timeout)
		p.rs = append(p.rs, f)
		p.desc += f.Kind + fmt.Sprint(f.Code) + ","
		if f.Kind == "refuse" || f.Kind == "trunc" && f.Cut == 0 || f.Kind == "reset" || f.HeadErr {
			p.loose = true
		}
	}
	return p
}

func goodResp(r *rand.Rand, b []byte, lm time.Time) *crlw.Resp {
	g := &crlw.Resp{Kind: "ok", Body: b, LastMod: lm, Chunked: r.Intn(4) == 0, NoRange: r.Intn(2) == 0, Gzip: r.Intn(2) == 0}
	switch r.Intn(6) {
	case 0:
		g.NoHead = true
	case 1:
		g.HeadErr = true
	}
	return g
}

// prior puts something at path, and says what.
func prior(r *rand.Rand, path string, b []byte, lm time.Time) string {
	put := func(c []byte, t time.Time) {
		os.WriteFile(path, c, 0644)
		if !t.IsZero() {
			os.Chtimes(path, t, t)
		}
	}
	old := lm.Add(-time.Duration(1+r.Intn(1000)) * time.Hour)
	if lm.IsZero() {
		old = time.Now().Add(-time.Duration(r.Intn(1000)) * time.Hour)
	}
	switch r.Intn(9) {
	case 0, 1:
		return "nothing"
	case 2:
		put(nil, old)
		return "empty"
	case 3:
		put(b, time.Time{})
		return "the same"
	case 4:
		c := append([]byte(nil), b...)
		r.Read(c)
		put(c, old)
		return "older of the same size"
	case 5:
		put(b[:r.Intn(len(b)+1)], time.Time{})
		return "a prefix"
	case 6:
		put(append(append([]byte(nil), b...), "more"...), time.Time{})
		return "longer"
	case 7:
		c := make([]byte, r.Intn(len(b)+1))
		copy(c, b)
		put(c, old)
		return "an old prefix"
	}
	put([]byte("something quite different"), old)
	return "different"
}

func c13Single(run *mon.Run, r *rand.Rand, srv *crlw.Server, dir string, i int) {
	b := body(r)
	lm := time.Now().Add(-time.Duration(r.Intn(500)) * time.Hour)
	if r.Intn(4) == 0 {
		lm = time.Time{}
	}
	retries := r.Intn(4)
	timeout := []time.Duration{0, 120 * time.Millisecond, 30 * time.Second}[r.Intn(3)]
	p := c13plan(r, goodResp(r, b, lm), retries, timeout)
	path := filepath.Join(dir, "file")
	was := prior(r, path, b, lm)
	if (was == "different" || was == "longer") && r.Intn(10) == 0 && len(b) != 4096 {
		os.Remove(path)
		os.MkdirAll(path, 0755)
		was, p.ok = "a directory", false
	}
	before, _ := os.ReadFile(path)
	u := srv.URL("/x/f.crl?a=1")
	srv.Plan(u, p.rs...)
	srv.Plan(srv.URL("/loop"), &crlw.Resp{Kind: "redirect", Target: "/loop"})
	pu, _ := url.Parse(u)
	t0 := time.Now()
	err := downloader.DownloadFileSync(context.Background(), *pu, path, uint(retries), timeout)
	got, rerr := os.ReadFile(path)
	desc := fmt.Sprintf("prior=%s body=%d server=%s retries=%d timeout=%v", was, len(b), p.desc, retries, timeout)
	det := map[string]any{"case": desc, "err": fmt.Sprint(err), "hits": len(srv.Hits(u)), "seconds": time.Since(t0).Seconds()}
	if timeout > 0 && timeout < time.Second && time.Since(t0) > 10*time.Second {
		run.Violation("timeout-ignored", desc+": took longer than any number of timeouts", det)
	}
	slow := time.Since(t0) > timeout && timeout > 0 && timeout < time.Second && p.ok // a loaded machine
	run.Eval(fmt.Sprintf("single/%s/%s/%d/%v", was, p.desc, retries, err == nil))
	if err == nil {
		run.Count("successful downloads", 1)
		if rerr != nil || !bytes.Equal(got, b) {
			run.Violation("wrong-content", fmt.Sprintf("%s: success, but the file has %d bytes that are not the server's %d (%v)", desc, len(got), len(b), rerr), det)
		}
		if was == "a directory" {
			run.Violation("false-success", desc+": success", det)
		}
		if !p.ok && !p.loose && !bytes.Equal(before, b) && was != "a prefix" && was != "an old prefix" {
			run.Violation("false-success", desc+": success although the server never completed within the retries", det)
		}
	} else {
		run.Count("failed downloads", 1)
		if p.ok && !slow {
			run.Violation("false-failure", fmt.Sprintf("%s: failed with %v", desc, err), det)
		}
	}
	gets := 0
	for _, h := range srv.Hits(u) {
		if h.Method == "GET" {
			gets++
		}
	}
	lim := retries + 1
	if p.loose {
		lim *= 3
	}
	if gets > lim {
		run.Violation("too-many-attempts", fmt.Sprintf("%s: %d fetches", desc, gets), det)
	}
}

type pathRecorder struct{ paths []string }

func (p *pathRecorder) IsValid(path string) error {
	p.paths = append(p.paths, path)
	return nil
}

// tempSuffix is what is appended to the name of a file for the name of the one
// that its download is kept in until it is verified, or "" if that cannot be
// foretold.
var tempSuffix = sync.OnceValue(func() string {
	dir, err := os.MkdirTemp("", "probe")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(dir)
	srv := crlw.NewServer()
	defer srv.Close()
	u, _ := url.Parse(srv.URL("/probe.crl"))
	rec := &pathRecorder{}
	for i := 0; i < 2; i++ {
		srv.Plan(u.String(), &crlw.Resp{Kind: "ok", Body: []byte("probe")})
		downloader.DownloadAndVerifyFileSync(context.Background(), rec, &recAuditor{}, ident("i"), *u, filepath.Join(dir, "f"), 0, 0)
	}
	suffix := ""
	for i, p := range rec.paths {
		s, ok := strings.CutPrefix(p, filepath.Join(dir, "f"))
		if !ok || i > 0 && s != suffix {
			return ""
		}
		suffix = s
	}
	return suffix
})

// leftover names a file of a directory that only a download can have put there.
func leftover(dir, final string) string {
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if n := filepath.Join(dir, e.Name()); strings.HasPrefix(n, final) && n != final {
			return n
		}
	}
	return ""
}

func c13Verified(run *mon.Run, r *rand.Rand, srv *crlw.Server, dir string, i int) {
	b := body(r)
	for len(b) == 0 {
		b = body(r)
	}
	lm := time.Now().Add(-time.Duration(r.Intn(500)) * time.Hour)
	retries := r.Intn(3)
	g := goodResp(r, b, lm)
	p := c13plan(r, g, retries, 0)
	final := filepath.Join(dir, "f.crl")
	old := []byte("the previous valid file")
	was := []string{"nothing", "valid", "invalid", "directory"}[r.Intn(4)]
	switch was {
	case "valid":
		os.WriteFile(final, old, 0644)
	case "invalid":
		os.WriteFile(final, []byte("rubbish"), 0644)
	case "directory":
		os.MkdirAll(filepath.Join(final, "x"), 0755)
	}
	if r.Intn(3) == 0 && was != "directory" && tempSuffix() != "" { // left by an interrupted run
		os.WriteFile(final+tempSuffix(), b[:r.Intn(len(b))], 0644)
		if r.Intn(2) == 0 {
			t := lm.Add(-time.Hour)
			os.Chtimes(final+tempSuffix(), t, t)
		}
	}
	v := &bodyVerifier{ok: [][]byte{old}}
	accept := r.Intn(3) > 0
	if accept {
		v.ok = append(v.ok, b)
	}
	a := &recAuditor{}
	u := srv.URL("/v.crl")
	srv.Plan(u, p.rs...)
	srv.Plan(srv.URL("/loop"), &crlw.Resp{Kind: "redirect", Target: "/loop"})
	pu, _ := url.Parse(u)
	watch := inot.New(dir)
	ok, err := downloader.DownloadAndVerifyFileSync(context.Background(), v, a, ident("issuer"), *pu, final, uint(retries), 0)
	desc := fmt.Sprintf("verified download: prior=%s server=%s retries=%d accepted=%v", was, p.desc, retries, accept)
	det := map[string]any{"case": desc, "ok": ok, "err": fmt.Sprint(err), "audited": []any{a.down, a.ver}}
	run.Eval(fmt.Sprintf("verified/%s/%s/%d/%v/%v", was, p.desc, retries, accept, ok))
	if watch != nil {
		run.Count("watched replacements", 1)
		if n := watch.Close()[final]; n > 0 && was == "valid" {
			run.Violation("written-in-place", fmt.Sprintf("%s: the valid file was written to in place (%d writes), so an interruption would lose it", desc, n), det)
		}
	}
	got, _ := os.ReadFile(final)
	fetched := p.ok || p.loose && bytes.Equal(got, b)
	if n := leftover(dir, final); n != "" {
		run.Violation("temp-left", desc+": a temporary file is still there: "+n, det)
	}
	want := was == "valid" || fetched && accept && was != "directory"
	if p.loose && !p.ok && ok != want {
		want = ok // it may have succeeded
	}
	if ok != want {
		run.Violation("wrong-verdict", fmt.Sprintf("%s: valid=%v, expected %v (%v)", desc, ok, want, err), det)
	}
	switch {
	case fetched && accept && was != "directory":
		if !bytes.Equal(got, b) {
			run.Violation("wrong-content", fmt.Sprintf("%s: the final file has %d bytes, not the server's %d", desc, len(got), len(b)), det)
		}
		if p.ok && err != nil {
			run.Violation("false-failure", fmt.Sprintf("%s: %v", desc, err), det)
		}
	default:
		if err == nil {
			run.Violation("silent-failure", desc+": no error", det)
		}
		if was == "valid" && !bytes.Equal(got, old) {
			run.Violation("good-lost", desc+": the previous valid file changed", det)
		}
	}
	if p.ok && len(a.down) > 0 || !fetched && !p.loose && len(a.down) != 1 {
		run.Violation("wrong-audit", desc+": download failures reported do not match", det)
	}
	if p.ok && (len(a.ver) > 0) == accept {
		run.Violation("wrong-audit", desc+": verification failures reported do not match", det)
	}
	for _, s := range append(append([]string(nil), a.down...), a.ver...) {
		if s != "issuer "+u {
			run.Violation("wrong-audit", desc+": reported for "+s, det)
		}
	}
}

// c13History follows a URL whose content changes while its size does not.
func c13History(run *mon.Run, r *rand.Rand, srv *crlw.Server, dir string, i int) {
	path := filepath.Join(dir, "h")
	n := 1 + r.Intn(5000)
	lm := time.Now().Add(-1000 * time.Hour)
	dated := r.Intn(4) > 0
	u := srv.URL("/h")
	pu, _ := url.Parse(u)
	var cur []byte
	fetched := false
	for k := 0; k < 6; k++ {
		changed := k == 0 || r.Intn(2) == 0
		if changed {
			cur = make([]byte, n)
			r.Read(cur)
			if r.Intn(4) == 0 {
				cur = cur[:r.Intn(n)]
			}
			lm = lm.Add(time.Duration(1+r.Intn(100)) * time.Hour)
			if r.Intn(3) == 0 {
				lm = lm.Add(-59*time.Minute - 59*time.Second)
			}
			if lm.After(time.Now()) {
				lm = time.Now().Truncate(time.Second).Add(-time.Second)
			}
		}
		g := &crlw.Resp{Kind: "ok", Body: cur, NoRange: r.Intn(2) == 0}
		if dated {
			g.LastMod = lm
		}
		srv.Plan(u, g)
		b0 := len(srv.Hits(u))
		err := downloader.DownloadFileSync(context.Background(), *pu, path, 1, 0)
		got, _ := os.ReadFile(path)
		run.Eval(fmt.Sprintf("history/%v/%v/%d/%d", dated, changed, k, len(srv.Hits(u))-b0))
		if err != nil {
			run.Violation("false-failure", fmt.Sprintf("history step %d: %v", k, err), nil)
			return
		}
		if !bytes.Equal(got, cur) {
			run.Violation("stale-content", fmt.Sprintf("history step %d (changed=%v dated=%v size=%d): success, but the file is not what the server has", k, changed, dated, len(cur)), map[string]any{"last-modified": lm})
			return
		}
		if !changed && fetched {
			run.Count("unchanged fetches", 1)
		}
		fetched = true
	}
}

func c13Cancel(run *mon.Run, r *rand.Rand, srv *crlw.Server, dir string, i int) {
	path := filepath.Join(dir, "c")
	b := body(r)
	for len(b) < 100 {
		b = body(r)
	}
	if r.Intn(2) == 0 {
		os.WriteFile(path, b[:r.Intn(len(b))], 0644)
	}
	u := srv.URL("/c")
	pu, _ := url.Parse(u)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	when := []string{"before", "during a stall", "during HEAD", "during a failure", "between retries"}[r.Intn(5)]
	lag := time.Duration(r.Intn(30)) * time.Millisecond
	fire := func() { time.AfterFunc(lag, cancel) }
	rp := &crlw.Resp{Kind: "stall", Body: b, Cut: r.Intn(len(b)), Chunked: r.Intn(2) == 0}
	switch when {
	case "before":
		cancel()
		rp = &crlw.Resp{Kind: "ok", Body: b}
	case "during a stall":
		rp.Hook = fire
	case "during HEAD":
		os.WriteFile(path, b[:len(b)/2], 0644)
		rp.HeadLag = 20 * time.Second
		time.AfterFunc(50*time.Millisecond+lag, cancel)
	case "during a failure":
		rp.Kind, rp.Hook, rp.Delay = "status", fire, 10*time.Millisecond
		rp.Code = 500
	case "between retries":
		rp.Kind, rp.Hook = "trunc", cancel
	}
	srv.Plan(u, rp)
	t0 := time.Now()
	retries := uint(1 + r.Intn(3))
	var err error
	verified := r.Intn(2) == 0
	ok := false
	if verified {
		ok, err = downloader.DownloadAndVerifyFileSync(ctx, &bodyVerifier{ok: [][]byte{b}}, &recAuditor{}, ident("i"), *pu, path, retries, 30*time.Second)
	} else {
		err = downloader.DownloadFileSync(ctx, *pu, path, retries, 30*time.Second)
	}
	d := time.Since(t0)
	got, _ := os.ReadFile(path)
	complete := bytes.Equal(got, b)
	run.Eval(fmt.Sprintf("cancel/%s/%v/%v/%d", when, verified, err == nil, retries))
	desc := fmt.Sprintf("cancelled %s, retries=%d, verified=%v", when, retries, verified)
	if !complete && (err == nil || verified && ok) {
		run.Violation("cancel-success", desc+": reported as success", map[string]any{"err": fmt.Sprint(err), "ok": ok})
	}
	if d > 5*time.Second {
		run.Violation("cancel-ignored", fmt.Sprintf("%s: returned only after %v", desc, d), nil)
	}
	if n := leftover(dir, path); verified && n != "" {
		run.Violation("temp-left", desc+": a temporary file is still there: "+n, nil)
	}
}

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vharness/lib/crlw"
	"vharness/lib/der"
	"vharness/lib/inot"
	"vharness/lib/mon"
	"vharness/lib/proc"
)

// pub is one thing a server may hand out for a CRL URL.
type pub struct {
	what  string
	body  []byte
	class string   // valid, invalid, undecodable, odd (may be treated as either)
	lines []string // reason and serial of every entry, in hex
	dp    string   // "" not judged, "right", "wrong"
	own   *pub     // what it is for the issuer whose key signed it
	by    string
}

type site struct {
	iss   *issuer
	url   string
	part  bool // disclosed as a partition
	disk  *pub // what the issuer's directory must hold for it
	maybe []*pub
	// this round
	plan    []*crlw.Resp
	fetched *pub // nil: every attempt fails
	failing bool
	last    *pub
	lastMod time.Time
	stale   []byte // damaged local file
	desc    string
	mid     bool // damaged on disk after it was fetched
}

type issuer struct {
	ca       *crlw.CA
	cas      []*crlw.CA // certificates of the same key
	enrolled bool
	sites    []*site
	part     bool
}

type aggWorld struct {
	run     *mon.Run
	r       *rand.Rand
	srv     *crlw.Server
	dir     string
	crlpath string
	ccadb   string
	issuers []*issuer
	outs    int
	threads int
	n       int
	what    string
	huge    int // entries of the next CRL, if not 0
}

// the outputs of one run
type outputs struct {
	revoked, enrolled, audit string
	before                   map[string][]byte // lists of an earlier run
}

var bin = os.Getenv("VH_BIN")

func newAgg(run *mon.Run, r *rand.Rand, name string) *aggWorld {
	d, err := os.MkdirTemp(run.Scratch, "agg")
	if err != nil {
		mon.Infra("%v", err)
	}
	w := &aggWorld{run: run, r: r, srv: crlw.NewServer(), dir: d, crlpath: filepath.Join(d, "crls"), ccadb: filepath.Join(d, "ccadb.csv"),
		threads: 1 + r.Intn(8), what: name}
	root := crlw.Root("Root")
	rows := []crlw.Row{crlw.RootRow(root)}
	other := crlw.Root("Unrelated root") // not in the report
	ni := 1 + r.Intn(5)
	sharing := ni > 1 && r.Intn(4) == 0 // the second issuer discloses a URL of the first
	for i := 0; i < ni; i++ {
		is := &issuer{enrolled: true}
		parent := root
		if i > 0 && r.Intn(3) == 0 && w.issuers[0].enrolled {
			parent = w.issuers[0].ca
		}
		k := i
		if i > 0 && r.Intn(6) == 0 && !(sharing && i == 1) {
			is.enrolled = false
			k = -1
			if r.Intn(2) == 0 {
				parent = other
			}
		}
		is.ca = parent.Sub(fmt.Sprintf("Issuer %d", i))
		is.cas = []*crlw.CA{is.ca}
		if k >= 0 && r.Intn(5) == 0 && !(sharing && i == 1) {
			is.cas = append(is.cas, root.SubKey(fmt.Sprintf("Issuer %d again", i), is.ca.Key))
		}
		for ci, ca := range is.cas {
			full, js := "", ""
			nu := r.Intn(4)
			if nu == 0 && r.Intn(4) > 0 {
				nu = 1
			}
			if sharing && i == 1 {
				nu = 0
			}
			mode := r.Intn(3)
			if r.Intn(25) == 0 && nu > 0 {
				nu, mode = 60+r.Intn(120), 1+r.Intn(2)
				w.run.Count("issuers with very many CRLs", 1)
			}
			var part []string
			for u := 0; u < nu; u++ {
				s := &site{iss: is, url: w.newURL(i, ci, u)}
				if (mode == 0 || mode == 2) && full == "" {
					full = s.url
				} else {
					if mode == 0 {
						break
					}
					s.part = true
					part = append(part, s.url)
					is.part = true
				}
				is.sites = append(is.sites, s)
			}
			if len(part) > 0 {
				js = crlw.JSONArray(part)
			} else if r.Intn(2) == 0 {
				js = "[]"
			}
			row := crlw.SubRow(ca, full, js)
			if !is.enrolled && parent != other {
				row.Revoked = []string{"Revoked", "Parent Cert Revoked"}[r.Intn(2)]
			} else if r.Intn(4) == 0 {
				row.Revoked = ""
			}
			rows = append(rows, row)
		}
		w.issuers = append(w.issuers, is)
	}
	if sharing {
		// a URL that two issuers disclose
		a, b := w.issuers[0], w.issuers[1]
		if len(a.sites) > 0 && b.enrolled && len(b.cas) == 1 && !b.part && len(b.sites) == 0 {
			b.sites = append(b.sites, &site{iss: b, url: a.sites[0].url})
			for i := range rows {
				if bytes.Equal(rows[i].Cert, b.ca.Cert) {
					rows[i].Full = a.sites[0].url
				}
			}
		}
	}
	r.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	if err := os.WriteFile(w.ccadb, crlw.Report(r, rows), 0644); err != nil {
		mon.Infra("%v", err)
	}
	return w
}

func (w *aggWorld) close() {
	w.srv.Close()
	os.RemoveAll(w.dir)
}

func (w *aggWorld) newURL(i, c, u int) string {
	host := fmt.Sprintf("crl%d.example", w.r.Intn(3))
	switch w.r.Intn(6) {
	case 4: // they differ in nothing but the user
		return fmt.Sprintf("http://u%d-%d-%d:pw@crl.example/latest.crl", i, c, u)
	case 0:
		return fmt.Sprintf("http://%s/i%d/c%d/%d.crl", host, i, c, u)
	case 1:
		return fmt.Sprintf("http://%s/i%d-%d?shard=%d&z=1&a=2", host, i, c, u)
	case 2:
		return fmt.Sprintf("http://%s:8080/ca%d%d/%d/latest.crl", host, i, c, u) // same base names
	case 3:
		return fmt.Sprintf("http://%s/CA%%20%d%d/%d.CRL", host, i, c, u)
	}
	return fmt.Sprintf("http://%s/%d/%d/%d/", host, i, c, u)
}

func (w *aggWorld) serial() []byte {
	r := w.r
	n := []int{1, 2, 8, 16, 20, 21, 40}[r.Intn(7)]
	b := make([]byte, n)
	r.Read(b)
	switch r.Intn(5) {
	case 0: // leading zero, as a positive integer with its high bit set has
		if n > 1 {
			b[0], b[1] = 0, b[1]|0x80
		}
	case 1: // negative
		b[0] = 0x80 | b[0]&0x7e
	default:
		b[0] = b[0]&0x7f | 1
	}
	if n > 1 && (b[0] == 0xff && b[1]&0x80 != 0 || b[0] == 0 && b[1]&0x80 == 0) {
		b[0] = 0x21
	}
	return b
}

func (w *aggWorld) entries(n int) ([]der.Revoked, []string) {
	r := w.r
	var es []der.Revoked
	var lines []string
	for j := 0; j < n; j++ {
		e := der.Revoked{Serial: w.serial(), Reason: -1, Time: time.Now().Add(-time.Duration(r.Intn(100000)) * time.Hour)}
		if r.Intn(8) == 0 {
			e.Time = time.Date(2051, 1, 2, 3, 4, 5, 0, time.UTC)
		}
		reason := 0
		if r.Intn(3) > 0 {
			reason = []int{0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 77}[r.Intn(11)]
			e.Reason = reason
		}
		switch r.Intn(5) {
		case 0:
			e.Exts = append(e.Exts, der.Ext(false, der.GenTime(time.Now()), 2, 5, 29, 24)) // invalidity date
		case 1:
			if e.Reason >= 0 { // reason last and critical
				e.Reason = -1
				e.Exts = append(e.Exts, der.Ext(false, der.GenTime(time.Now()), 2, 5, 29, 24),
					der.Ext(r.Intn(2) == 0, der.TLV(0x0a, []byte{byte(reason)}), 2, 5, 29, 21))
			}
		}
		es = append(es, e)
		lines = append(lines, hex.EncodeToString(append([]byte{byte(reason)}, e.Serial...)))
		if r.Intn(20) == 0 {
			es = append(es, e)
			lines = append(lines, lines[len(lines)-1])
		}
	}
	return es, lines
}

// crl makes a CRL of the site's issuer, signed with the key.
func (w *aggWorld) crl(s *site, key *der.Key, n int) (*der.CRL, *pub) {
	r := w.r
	es, lines := w.entries(n)
	w.n++
	c := &der.CRL{Issuer: s.iss.ca.Name, This: time.Now().Add(-time.Duration(r.Intn(100)) * time.Hour), Entries: es,
		Exts: [][]byte{der.CRLNumber(byte(1 + w.n%100))}}
	c.Next = c.This.Add(240 * time.Hour)
	p := &pub{class: "valid", lines: lines, what: fmt.Sprintf("CRL with %d entries", len(lines))}
	switch r.Intn(12) {
	case 0:
		c.Next = c.This.Add(time.Minute)
		c.This = c.This.Add(-200 * time.Hour)
		p.what += " (expired)"
	case 1:
		c.NoNext = true
	case 2:
		c.Issuer = der.Name("Another name")
	case 3:
		c.This = time.Now().Add(-10000 * time.Hour)
		p.what += " (old)"
	}
	// distribution points
	others := []string{}
	for _, o := range s.iss.sites {
		if norm(o.url) != norm(s.url) {
			others = append(others, o.url)
		}
	}
	if s.iss.part {
		dp := "right"
		var names []string
		switch k := r.Intn(8); {
		case k < 3:
			names = []string{s.url}
		case k == 3:
			names = []string{"http://unknown.example/x.crl", s.url, "ldap://dir.example/cn=x"}
		case k == 4 && len(others) > 0:
			names, dp = []string{others[r.Intn(len(others))]}, "wrong"
		case k == 5 && len(others) > 0:
			names, dp = []string{s.url, others[r.Intn(len(others))]}, "wrong"
			if r.Intn(2) == 0 {
				names[0], names[1] = names[1], names[0]
			}
		case k == 6:
			names, dp = []string{s.url + "x"}, "wrong"
		case k == 7:
			dp = "wrong" // no extension at all
		default:
			names = []string{reorder(s.url)}
		}
		if names != nil {
			c.Exts = append(c.Exts, der.IDP(names...))
		}
		if s.part {
			p.dp = dp
		}
	} else if r.Intn(3) == 0 {
		c.Exts = append(c.Exts, der.IDP("http://whatever.example/"))
	}
	p.body = c.Sign(key)
	return c, p
}

func reorder(u string) string {
	h, q, ok := strings.Cut(u, "?")
	if !ok {
		return u
	}
	ps := strings.Split(q, "&")
	for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
		ps[i], ps[j] = ps[j], ps[i]
	}
	return h + "?" + strings.Join(ps, "&")
}

func norm(u string) string {
	h, q, ok := strings.Cut(u, "?")
	if !ok {
		return u
	}
	ps := strings.Split(q, "&")
	sort.Strings(ps)
	return h + "?" + strings.Join(ps, "&")
}

var strangers = sync.OnceValue(func() *der.Key { return der.NewKey() })

// calm sites rarely fail: their issuer has so many that it would never get a
// list otherwise.
func (s *site) calm() bool { return len(s.iss.sites) > 20 }

// publish invents what the server has for a site.
func (w *aggWorld) publish(s *site) *pub {
	r := w.r
	n := []int{0, 1, 2, 5, 30, 300}[r.Intn(6)]
	calm := s.calm()
	if calm {
		n = r.Intn(4)
	}
	huge := w.huge > 0 && !calm
	if huge {
		n, w.huge = w.huge, 0
	}
	_, p := w.crl(s, s.iss.ca.Key, n)
	if huge {
		w.run.Count("CRLs of more than 65536 entries", 1)
		return p
	}
	if calm {
		return p
	}
	bad := func(what string, body []byte) *pub {
		return &pub{class: "invalid", what: what, body: body}
	}
	switch k := r.Intn(26); k {
	default:
		return p
	case 0:
		_, q := w.crl(s, strangers(), n)
		return bad("CRL of a stranger's key", q.body)
	case 1:
		o := w.issuers[r.Intn(len(w.issuers))]
		if o.ca.ID() == s.iss.ca.ID() {
			return p
		}
		_, q := w.crl(s, o.ca.Key, n)
		p = bad("CRL of another issuer's key", q.body)
		q.dp = ""
		p.own, p.by = q, o.ca.ID()
		return p
	case 2:
		b := append([]byte(nil), p.body...)
		if n == 0 || len(p.lines) == 0 {
			return p
		}
		sr, _ := hex.DecodeString(p.lines[len(p.lines)-1][2:])
		i := bytes.Index(b, sr)
		b[i+len(sr)-1] ^= 1
		return bad("CRL with one bit of a serial changed", b)
	case 3:
		b := append([]byte(nil), p.body...)
		b[len(b)-1] ^= 1
		return bad("CRL with one bit of the signature changed", b)
	case 4:
		return bad("truncated file", p.body[:r.Intn(len(p.body))])
	case 5:
		return bad("HTML page", []byte("<html><body>maintenance</body></html>"))
	case 6:
		return bad("empty body", nil)
	case 7:
		b := make([]byte, r.Intn(2000))
		r.Read(b)
		return bad("random bytes", b)
	case 8:
		return bad("CRL followed by other bytes", append(append([]byte(nil), p.body...), 0x30, 0))
	case 9: // signature over other contents
		_, q := w.crl(s, s.iss.ca.Key, n+1)
		return bad("CRL with the signature of another one", splice(p.body, q.body))
	case 10:
		c, q := w.crl(s, s.iss.ca.Key, 2)
		e := c.Entries[len(c.Entries)-1]
		ext := der.Ext(false, der.TLV(0x0a, []byte{1}), 2, 5, 29, 21)
		e.Reason = -1
		e.Exts = [][]byte{ext, ext}
		c.Entries[len(c.Entries)-1] = e
		q.body = c.Sign(s.iss.ca.Key)
		q.class, q.lines, q.dp, q.what = "undecodable", nil, "", "CRL with a repeated reason"
		return q
	case 11:
		c, q := w.crl(s, s.iss.ca.Key, 2)
		e := c.Entries[0]
		e.Reason = -1
		e.Exts = [][]byte{der.Ext(false, []byte{0x0a, 0x05, 1}, 2, 5, 29, 21)}
		c.Entries[0] = e
		q.body = c.Sign(s.iss.ca.Key)
		q.class, q.lines, q.dp, q.what = "undecodable", nil, "", "CRL with a reason that is not an enumerated"
		return q
	case 12:
		c, q := w.crl(s, s.iss.ca.Key, 3)
		c.Entries[1].Serial = append([]byte{0, 0}, c.Entries[1].Serial...)
		q.lines = nil
		for _, e := range c.Entries {
			q.lines = append(q.lines, hex.EncodeToString(append([]byte{reasonOf(e)}, e.Serial...)))
		}
		q.body = c.Sign(s.iss.ca.Key)
		q.class, q.what = "odd", "CRL with a padded serial"
		return q
	case 13:
		// the same as PEM
		p.body = []byte("-----BEGIN X509 CRL-----\n" + wrap(p.body) + "-----END X509 CRL-----\n")
		p.what += " as PEM"
		return p
	}
}

func reasonOf(e der.Revoked) byte {
	if e.Reason >= 0 {
		return byte(e.Reason)
	}
	for _, x := range e.Exts {
		if bytes.Contains(x, []byte{0x55, 0x1d, 0x15}) {
			return x[len(x)-1]
		}
	}
	return 0
}

// temporary tells whether a file of an issuer's directory is one that a download
// is kept in until it is verified.
func temporary(n string) bool { return !strings.HasSuffix(n, ".crl") }

// choose makes the plan of one round for a site.
func (w *aggWorld) choose(s *site) {
	r := w.r
	p := w.publish(s)
	lm := time.Now().Add(-time.Duration(r.Intn(30)) * time.Hour)
	if r.Intn(6) == 0 {
		lm = time.Now().Add(-time.Duration(340+r.Intn(1000)) * time.Hour)
	}
	if r.Intn(5) == 0 {
		lm = time.Time{}
	}
	left := false
	for n := range w.files(s.iss.ca.ID()) {
		left = left || temporary(n)
	}
	if left {
		// an interrupted run left something behind, and an honest server
		// says that what it has now is newer, or has the same as before
		if s.last != nil && r.Intn(2) == 0 {
			p, lm = s.last, s.lastMod
		} else if !lm.IsZero() {
			lm = time.Now().Add(3 * time.Second)
		}
	}
	s.last, s.lastMod = p, lm
	ok := &crlw.Resp{Kind: "ok", Body: p.body, LastMod: lm, Chunked: r.Intn(4) == 0, NoRange: r.Intn(3) == 0, Gzip: r.Intn(3) == 0}
	switch r.Intn(4) {
	case 0:
		ok.NoHead = true
	case 1:
		ok.HeadErr = true
	}
	if w.r.Intn(10) == 0 {
		ok.Slow = time.Duration(r.Intn(20)) * time.Millisecond
	}
	fails := 0
	s.failing = r.Intn(5) == 0 && !s.calm()
	switch {
	case s.failing:
		fails = 1 + r.Intn(3)
	case r.Intn(3) == 0:
		fails = 1 + r.Intn(3)
	}
	s.plan = nil
	s.desc = ""
	for i := 0; i < fails; i++ {
		s.plan = append(s.plan, w.failure(p.body, lm))
		s.plan[i].HeadErr = s.failing && left // what was left might be complete
		s.desc += s.plan[i].Kind + ", "
	}
	s.fetched = nil
	if !s.failing {
		s.plan = append(s.plan, ok)
		s.fetched = p
		s.desc += p.what
	} else {
		s.desc += "..."
	}
}

func (w *aggWorld) failure(body []byte, lm time.Time) *crlw.Resp {
	r := w.r
	rp := &crlw.Resp{Body: body, LastMod: lm, Chunked: r.Intn(3) == 0}
	switch r.Intn(5) {
	case 0:
		rp.Kind, rp.Code = "status", []int{400, 403, 404, 410, 500, 502, 503}[r.Intn(7)]
		if r.Intn(2) == 0 {
			rp.Body = []byte("error page")
		}
	case 1:
		rp.Kind = "refuse"
	case 2:
		rp.Kind = "reset"
		if len(body) > 0 {
			rp.Cut = r.Intn(len(body))
		}
	case 3:
		rp.Kind, rp.Code = "status", []int{204, 206, 301, 304}[r.Intn(4)]
		if rp.Code == 206 {
			rp.Code = 416
		}
		rp.Body = nil
	default:
		rp.Kind = "trunc"
		if len(body) > 0 {
			rp.Cut = r.Intn(len(body))
		}
	}
	if (rp.Kind == "trunc" || rp.Kind == "reset") && len(body) == 0 {
		rp.Kind = "refuse"
	}
	return rp
}

// round prepares the server.
func (w *aggWorld) round() {
	w.srv.Reset()
	shared := map[string]*site{}
	for _, is := range w.issuers {
		for _, s := range is.sites {
			s.mid = false
			if o := shared[s.url]; o != nil {
				// the server has one thing for a URL, whoever asks; which of
				// the two consumes the failures is open, so have none
				s.plan, s.failing, s.desc = o.plan, o.failing, o.desc
				if len(o.plan) > 1 && !o.failing {
					o.plan = o.plan[len(o.plan)-1:]
					s.plan = o.plan
				}
				s.fetched = nil
				if o.fetched != nil {
					q := *o.fetched
					q.class, q.dp, q.what = "invalid", "", "another issuer's "+q.what
					s.fetched = &q
					if o.fetched.by == s.iss.ca.ID() {
						s.fetched = o.fetched.own
					}
				}
				w.srv.Plan(s.url, o.plan...)
				continue
			}
			w.choose(s)
			shared[s.url] = s
			w.srv.Plan(s.url, s.plan...)
		}
	}
}

func (w *aggWorld) outputs() outputs {
	w.outs++
	d := filepath.Join(w.dir, fmt.Sprintf("run%d", w.outs))
	os.MkdirAll(d, 0755)
	o := outputs{filepath.Join(d, "revoked"), filepath.Join(d, "enrolled.json"), filepath.Join(d, "crl-audit.json"), map[string][]byte{}}
	if w.r.Intn(6) == 0 {
		// the run is repeated into the same directory
		os.MkdirAll(o.revoked, 0755)
		for _, is := range w.issuers {
			if !is.enrolled || len(is.sites) == 0 {
				continue
			}
			b := []byte(strings.Repeat("04badbadbadbad\n", 1+w.r.Intn(2000)))
			o.before[is.ca.ID()] = b
			os.WriteFile(filepath.Join(o.revoked, is.ca.ID()), b, 0644)
		}
	}
	return o
}

func (w *aggWorld) args(o outputs) []string {
	return []string{"-ccadb", w.ccadb, "-crlpath", w.crlpath, "-revokedpath", o.revoked, "-enrolledpath", o.enrolled, "-auditpath", o.audit,
		"-stderrthreshold=INFO"}
}

func (w *aggWorld) env() []string {
	return append(proc.BaseEnv(w.dir), "http_proxy=http://"+w.srv.Addr, fmt.Sprintf("numThreads=%d", w.threads))
}

func (w *aggWorld) start(o outputs) *proc.Proc {
	p, err := proc.Start(filepath.Join(bin, "aggregate-crls"), w.args(o), w.env(), w.dir)
	if err != nil {
		mon.Infra("start: %v", err)
	}
	return p
}

func (w *aggWorld) describe() []string {
	var out []string
	for _, is := range w.issuers {
		for _, s := range is.sites {
			have := "nothing"
			if s.disk != nil {
				have = s.disk.what
			}
			out = append(out, fmt.Sprintf("issuer %s enrolled=%v %s: on disk %s; server: %s", is.ca.ID()[:8], is.enrolled, s.url, have, s.desc))
		}
	}
	return out
}

// settle advances the model by a completed run.
func (w *aggWorld) settle() {
	for _, is := range w.issuers {
		for _, s := range is.sites {
			if !is.enrolled {
				continue
			}
			if s.fetched != nil && s.fetched.class != "invalid" {
				if s.fetched.class == "odd" {
					s.maybe = []*pub{s.disk, s.fetched}
				} else if s.fetched.class == "undecodable" && s.disk != nil {
					s.maybe = []*pub{s.disk, s.fetched}
				}
				if s.maybe == nil {
					s.disk = s.fetched
				}
			}
		}
	}
}

func tail(s string) string {
	if len(s) > 30000 {
		return s[len(s)-30000:]
	}
	return s
}

func (w *aggWorld) viol(id, key, desc string, res proc.Result) {
	if w.run.ID != id {
		return
	}
	w.run.Violation(key, w.what+": "+desc, map[string]any{"sites": w.describe(), "result": res.String(), "stderr": tail(res.Stderr)})
}

// files is what lies in an issuer's directory: name to content.
func (w *aggWorld) files(id string) map[string][]byte {
	out := map[string][]byte{}
	es, _ := os.ReadDir(filepath.Join(w.crlpath, id))
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(w.crlpath, id, e.Name()))
		if err != nil {
			b = nil
		}
		out[e.Name()] = b
	}
	return out
}

// checkDisk compares the CRL directory with the model. With loose, files may
// also hold what was being fetched (the run was interrupted).
func (w *aggWorld) checkDisk(res proc.Result, loose bool) {
	for _, is := range w.issuers {
		fs := w.files(is.ca.ID())
		if !is.enrolled {
			continue
		}
		used := map[string]bool{}
		for _, s := range is.sites {
			cands := s.maybe
			if cands == nil {
				cands = []*pub{s.disk}
				if loose && s.fetched != nil && s.fetched.class != "invalid" {
					cands = append(cands, s.fetched)
				}
			} else if loose && s.fetched != nil && s.fetched.class != "invalid" {
				cands = append(append([]*pub(nil), cands...), s.fetched)
			}
			found := false
			for _, p := range cands {
				if p == nil {
					continue
				}
				for n, b := range fs {
					if !temporary(n) && bytes.Equal(b, p.body) {
						used[n] = true
						found = true
						s.disk = p
						break
					}
				}
				if found {
					break
				}
			}
			if s.disk == nil && s.stale != nil {
				for n, b := range fs {
					if bytes.Equal(b, s.stale) {
						used[n] = true
					}
				}
			}
			if s.disk != nil {
				s.stale = nil
			}
			if !found {
				none := false
				for _, p := range cands {
					none = none || p == nil
				}
				if none {
					s.disk = nil
				} else if s.fetched != nil && s.fetched == s.disk && !loose {
					w.viol("C11", "new-not-stored", fmt.Sprintf("the valid CRL %q fetched for %s is not in the issuer's directory", s.fetched.what, s.url), res)
				} else {
					w.viol("C11", "good-lost", fmt.Sprintf("the valid CRL %q of %s is no longer in the issuer's directory", cands[0].what, s.url), res)
				}
			}
			s.maybe = nil
			w.run.Eval(fmt.Sprintf("disk/%s/%v/%v", s.desc, s.disk != nil, loose))
		}
		for n, b := range fs {
			if used[n] {
				continue
			}
			if temporary(n) {
				if !loose {
					w.viol("C11", "temp-left", "a temporary file was left behind: "+n, res)
				}
				continue
			}
			w.viol("C11", "bad-stored", fmt.Sprintf("the issuer's directory has a file %s that is none of its valid CRLs (%d bytes)", n, len(b)), res)
		}
	}
}

// checkLists compares the revoked lists with what the directory's CRLs say.
func (w *aggWorld) checkLists(o outputs, res proc.Result) {
	want := map[string]bool{}
	for _, is := range w.issuers {
		id := is.ca.ID()
		b, err := os.ReadFile(filepath.Join(o.revoked, id))
		if err == nil && o.before[id] != nil && bytes.Equal(b, o.before[id]) {
			err = os.ErrNotExist // nothing was written
			want[id] = true
		}
		if !is.enrolled || len(is.sites) == 0 {
			if err == nil {
				w.viol("C12", "list-without-crls", "a list was written for an issuer that is not enrolled or has no CRLs", res)
			}
			continue
		}
		want[id] = true
		absent, may := false, false
		exp := map[string]bool{}
		why := ""
		for _, s := range is.sites {
			switch {
			case s.disk == nil:
				absent, why = true, s.url+" could not be obtained"
			case s.disk.class == "undecodable":
				absent, why = true, s.url+" cannot be decoded"
			case s.disk.class == "odd":
				may = true
			}
			if s.disk != nil {
				for _, l := range s.disk.lines {
					exp[l] = true
				}
			}
		}
		w.run.Eval(fmt.Sprintf("list/%v/%v/%d/%d", absent, may, len(is.sites), len(exp)))
		if err != nil {
			if !absent && !may {
				w.viol("C12", "list-missing", fmt.Sprintf("issuer %s: all CRLs are available but there is no list", id), res)
				for _, s := range is.sites {
					if s.fetched == nil || s.fetched.class == "invalid" {
						w.viol("C11", "good-unused", fmt.Sprintf("the good CRL of %s is there, but after a failed fetch (%s) its issuer has no list", s.url, s.desc), res)
						break
					}
				}
			}
			continue
		}
		if absent {
			w.viol("C12", "list-incomplete", fmt.Sprintf("issuer %s has a list although %s", id, why), res)
			w.viol("C11", "unverified-used", fmt.Sprintf("issuer %s has a list although %s", id, why), res)
			continue
		}
		got := map[string]bool{}
		txt := string(b)
		if txt != "" && !strings.HasSuffix(txt, "\n") {
			w.viol("C12", "list-cut", fmt.Sprintf("the list of issuer %s does not end in a line feed", id), res)
		}
		for _, l := range strings.Split(strings.TrimSuffix(txt, "\n"), "\n") {
			if l != "" {
				got[l] = true
			}
		}
		var miss, extra []string
		for l := range exp {
			if !got[l] {
				miss = append(miss, l)
			}
		}
		for l := range got {
			if !exp[l] {
				extra = append(extra, l)
			}
		}
		sort.Strings(miss)
		sort.Strings(extra)
		if len(miss)+len(extra) > 0 {
			w.viol("C12", "list-wrong", fmt.Sprintf("the list of issuer %s: %d entries of %d missing (e.g. %.3q), %d foreign (e.g. %.3q)", id, len(miss), len(exp), miss, len(extra), extra), res)
			if len(extra) > 0 {
				w.viol("C11", "foreign-used", fmt.Sprintf("the list of issuer %s has entries that no valid CRL of its own has: %.3q", id, extra), res)
			}
		}
		w.run.Count("revoked entries compared", len(exp))
	}
	es, _ := os.ReadDir(o.revoked)
	for _, e := range es {
		if !want[e.Name()] {
			w.viol("C12", "list-foreign", "the revoked directory has "+e.Name(), res)
		}
	}
}

type auditEntry struct {
	Timestamp           time.Time
	Url, Path, Age      string
	Issuer              any
	IssuerSubject, Kind string
	Errors, DNSResults  []string
	NumRevocations      int
	SHA256Sum           string
}

func (w *aggWorld) checkAudit(o outputs, res proc.Result) {
	b, err := os.ReadFile(o.audit)
	if err != nil {
		w.viol("C19", "no-report", "there is no audit report: "+err.Error(), res)
		return
	}
	var rep struct{ Entries []auditEntry }
	if err := json.Unmarshal(b, &rep); err != nil {
		w.viol("C19", "malformed-report", "the audit report is not JSON: "+err.Error(), res)
		return
	}
	by := map[string]map[string][]auditEntry{}
	known := map[string]*site{}
	for _, is := range w.issuers {
		if is.enrolled {
			for _, s := range is.sites {
				known[is.ca.ID()+" "+s.url] = s
			}
		}
	}
	for _, e := range rep.Entries {
		id := fmt.Sprint(e.Issuer)
		if m, ok := e.Issuer.(map[string]any); ok {
			id = fmt.Sprint(m["id"])
		}
		k := id + " " + e.Url
		if known[k] == nil {
			w.viol("C19", "foreign-entry", fmt.Sprintf("entry for a URL and issuer that do not belong together: %+v", e), res)
			continue
		}
		if by[k] == nil {
			by[k] = map[string][]auditEntry{}
		}
		by[k][e.Kind] = append(by[k][e.Kind], e)
		if e.Timestamp.Before(time.Now().Add(-10*time.Minute)) || e.Timestamp.After(time.Now().Add(time.Minute)) {
			w.viol("C19", "bad-time", fmt.Sprintf("entry with a wrong time: %+v", e), res)
		}
	}
	for k, s := range known {
		got := by[k]
		if s.disk != nil && s.disk.class != "odd" && !s.mid {
			w.checkOld(s, got["Not Fresh, Warning"], res)
		}
		expect := func(kind string, want bool, key, why string) []auditEntry {
			w.run.Eval(fmt.Sprintf("audit/%s/%v/%s", kind, want, s.desc))
			if want && len(got[kind]) == 0 {
				w.viol("C19", "missing-"+key, fmt.Sprintf("%s: no %q entry although %s (%v)", s.url, kind, why, kinds(got)), res)
			}
			if !want && len(got[kind]) > 0 {
				w.viol("C19", "untrue-"+key, fmt.Sprintf("%s: a %q entry although %s: %+v", s.url, kind, why, got[kind][0]), res)
			}
			if want {
				return got[kind]
			}
			return nil
		}
		if s.fetched == nil {
			expect("Failed Download", true, "download", "no download succeeded")
		} else {
			expect("Failed Download", false, "download", "a download succeeded")
		}
		odd := s.mid || s.disk != nil && s.disk.class == "odd" || s.fetched != nil && s.fetched.class == "odd"
		if odd {
			continue
		}
		if s.fetched != nil && s.fetched.class == "invalid" {
			expect("Failed Verify", true, "verify", "the download was a "+s.fetched.what)
		} else {
			expect("Failed Verify", false, "verify", "nothing invalid was fetched")
		}
		valid, empty, undec := false, false, false
		if s.disk != nil {
			switch {
			case s.disk.class == "undecodable":
				undec = true
			case len(s.disk.lines) == 0:
				empty = true
			default:
				valid = true
			}
		}
		for _, e := range expect("Failed Process Local", undec, "process", "of what is on disk") {
			w.checkPath(e, s, res)
		}
		for _, e := range expect("Empty Revocation List", empty, "empty", "of what is on disk") {
			w.checkPath(e, s, res)
		}
		for _, e := range expect("Valid, Processed", valid, "valid", "of what is on disk") {
			w.checkPath(e, s, res)
			sum := sha256.Sum256(s.disk.body)
			if e.SHA256Sum != hex.EncodeToString(sum[:]) || e.NumRevocations != len(s.disk.lines) {
				w.viol("C19", "wrong-details", fmt.Sprintf("%s: reported %d revocations and hash %s; the CRL has %d and %x", s.url, e.NumRevocations, e.SHA256Sum, len(s.disk.lines), sum), res)
			}
		}
		if s.disk != nil && s.part && s.disk.dp != "" {
			expect("Wrong distribution point", s.disk.dp == "wrong", "wrong-dp", "its distribution points are "+s.disk.dp)
		} else if !s.iss.part || s.disk == nil {
			expect("Wrong distribution point", false, "wrong-dp", "there is nothing to check")
		}
		w.run.Count("audited URLs", 1)
	}
}

// checkOld compares the warnings with the age of what is on disk.
func (w *aggWorld) checkOld(s *site, got []auditEntry, res proc.Result) {
	for n, b := range w.files(s.iss.ca.ID()) {
		if !bytes.Equal(b, s.disk.body) || temporary(n) {
			continue
		}
		fi, err := os.Stat(filepath.Join(w.crlpath, s.iss.ca.ID(), n))
		if err != nil {
			return
		}
		age := time.Since(fi.ModTime())
		old := age > 337*time.Hour
		if old == (len(got) > 0) || !old && age > 335*time.Hour {
			w.run.Count(fmt.Sprintf("CRLs on disk too old=%v", old), 1)
			return
		}
		w.viol("C19", "age", fmt.Sprintf("%s: what is on disk is from %v ago, entries about that: %+v", s.url, age, got), res)
		return
	}
}

func kinds(m map[string][]auditEntry) []string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%s x%d", k, len(v)))
	}
	sort.Strings(out)
	return out
}

func (w *aggWorld) checkPath(e auditEntry, s *site, res proc.Result) {
	b, err := os.ReadFile(e.Path)
	if err != nil || !bytes.Equal(b, s.disk.body) || filepath.Dir(e.Path) != filepath.Join(w.crlpath, s.iss.ca.ID()) {
		w.viol("C19", "wrong-path", fmt.Sprintf("%s: the entry names the file %q, which is not the CRL that was used (%v)", s.url, e.Path, err), res)
	}
}

// judge checks a run that reported success.
func (w *aggWorld) judge(o outputs, res proc.Result) {
	w.settle()
	for _, is := range w.issuers {
		for _, s := range is.sites {
			if s.mid {
				s.disk, s.maybe = nil, nil
				w.run.Count("CRLs damaged after their download", 1)
			}
		}
	}
	w.checkDisk(res, false)
	w.checkLists(o, res)
	w.checkAudit(o, res)
	w.run.Count("completed runs checked", 1)
}

// damageLater arranges that one CRL of an issuer is damaged on disk when the
// program asks for another: it passed the check of its download, and must not
// be used nevertheless.
func (w *aggWorld) damageLater() {
	users := map[string]int{}
	for _, is := range w.issuers {
		for _, s := range is.sites {
			users[norm(s.url)]++
		}
	}
	for _, is := range w.issuers {
		if !is.enrolled || len(is.sites) < 2 {
			continue
		}
		b := is.sites[w.r.Intn(len(is.sites))]
		if b.failing || users[norm(b.url)] > 1 {
			continue
		}
		var once sync.Once
		b.plan[len(b.plan)-1].Hook = func() {
			once.Do(func() {
				for _, a := range is.sites {
					full := false
					for _, h := range w.srv.Hits(a.url) {
						full = full || h.Full
					}
					if a == b || !full || a.fetched == nil || a.fetched.class != "valid" || users[norm(a.url)] > 1 {
						continue
					}
					for n, c := range w.files(is.ca.ID()) {
						if !temporary(n) && bytes.Equal(c, a.fetched.body) {
							a.stale = append([]byte(nil), c[:len(c)-1]...)
							a.stale = append(a.stale, c[len(c)-1]^1)
							os.WriteFile(filepath.Join(w.crlpath, is.ca.ID(), n), a.stale, 0644)
							a.mid = true
							return
						}
					}
				}
			})
		}
	}
}

// watch records writes to the good CRLs on disk.
func (w *aggWorld) watch() func(res proc.Result) {
	good := map[string]*site{}
	var dirs []string
	for _, is := range w.issuers {
		d := filepath.Join(w.crlpath, is.ca.ID())
		dirs = append(dirs, d)
		fs := w.files(is.ca.ID())
		for _, s := range is.sites {
			for n, b := range fs {
				if s.disk != nil && bytes.Equal(b, s.disk.body) {
					good[d+"/"+n] = s
				}
			}
		}
	}
	wt := inot.New(dirs...)
	return func(res proc.Result) {
		if wt == nil {
			return
		}
		mod := wt.Close()
		for p, s := range good {
			w.run.Count("good files watched", 1)
			if mod[p] > 0 && !s.mid {
				w.viol("C11", "written-in-place", "the good CRL of "+s.url+" was written to in place: an interruption would lose it", res)
			}
		}
	}
}

func (w *aggWorld) complete(name string) {
	w.round()
	if w.r.Intn(4) == 0 {
		w.damageLater()
	}
	w.what = name
	if w.r.Intn(30) == 0 { // a setting that leaves nobody to do the work
		n := w.threads
		w.threads = -w.r.Intn(3)
		o := w.outputs()
		res := w.start(o).Wait(120 * time.Second)
		w.run.Count(fmt.Sprintf("runs without threads with success=%v", res.Code == 0), 1)
		w.what = fmt.Sprintf("%s, %d threads", name, w.threads)
		w.threads = n
		if res.Code == 0 {
			w.judge(o, res)
			return
		}
		w.what = name
	}
	o := w.outputs()
	seen := w.watch()
	res := w.start(o).Wait(120 * time.Second)
	seen(res)
	if res.Code != 0 {
		for _, id := range []string{"C11", "C12", "C19"} {
			w.viol(id, "run-failed", "an undisturbed run did not succeed: "+res.String(), res)
		}
		return
	}
	w.judge(o, res)
	if w.r.Intn(40) == 0 {
		w.run.Sample("round", w.describe())
	}
	w.wrongRequests(res)
}

// wrongRequests looks for URLs that must not be fetched.
func (w *aggWorld) wrongRequests(res proc.Result) {
	ok := map[string]bool{}
	for _, is := range w.issuers {
		for _, s := range is.sites {
			if is.enrolled {
				ok[s.url] = true
			}
		}
	}
	for _, h := range w.srv.Hits("") {
		if !ok[h.URL] {
			w.viol("C12", "foreign-url", "a URL was fetched that belongs to no enrolled issuer: "+h.URL, res)
		}
	}
}

// interrupt runs with a signal at some point, then a clean run.
func (w *aggWorld) interrupt(i int) {
	w.round()
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL}[w.r.Intn(3)]
	total := 0
	for _, is := range w.issuers {
		if is.enrolled {
			for _, s := range is.sites {
				total += len(s.plan)
			}
		}
	}
	if total == 0 {
		return
	}
	at := int64(1 + w.r.Intn(total))
	after := w.r.Intn(2) == 0
	lag := time.Duration(w.r.Intn(8000)) * time.Microsecond
	var cnt atomic.Int64
	var p atomic.Pointer[proc.Proc]
	hit := atomic.Bool{}
	fire := func() {
		if cnt.Add(1) == at {
			hit.Store(true)
			go func() {
				time.Sleep(lag)
				for p.Load() == nil {
					time.Sleep(time.Millisecond)
				}
				p.Load().Kill(sig)
			}()
		}
	}
	for _, is := range w.issuers {
		for _, s := range is.sites {
			for _, rp := range s.plan {
				if after && rp.Kind == "ok" {
					rp.After = fire
				} else {
					rp.Hook = fire
				}
				if w.r.Intn(2) == 0 {
					rp.Slow = 5 * time.Millisecond
				}
			}
		}
	}
	w.what = fmt.Sprintf("signal %v at fetch %d", sig, at)
	o := w.outputs()
	pr := w.start(o)
	p.Store(pr)
	res := pr.Wait(120 * time.Second)
	if res.TimedOut {
		w.viol("C12", "hang", "the program did not end after "+w.what, res)
	}
	w.run.Eval(fmt.Sprintf("interrupt/%v/%v/%d", sig, hit.Load(), res.Code))
	w.run.Count(fmt.Sprintf("interrupted runs with success=%v", res.Code == 0), 1)
	for _, is := range w.issuers {
		for _, s := range is.sites {
			for _, rp := range s.plan {
				rp.Hook, rp.After = nil, nil
			}
		}
	}
	if res.Code == 0 {
		// it claims to have finished: then everything must be there
		w.judge(o, res)
	} else {
		w.checkDisk(res, true)
	}
}

func wrap(b []byte) string {
	s := ""
	enc := base64std(b)
	for len(enc) > 64 {
		s += enc[:64] + "\n"
		enc = enc[64:]
	}
	return s + enc + "\n"
}

func urlEsc(s string) string { return url.PathEscape(s) }

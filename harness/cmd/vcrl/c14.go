package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/fs"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"vharness/lib/crlw"
	"vharness/lib/der"
	"vharness/lib/mon"
	"vharness/lib/proc"
)

// What a server can tell apart: scheme and host without letter case, the path
// as it is sent, and the set of decoded query parameters (malformed ones as
// they are). Two requests with the same wireID may share a file.
func wireID(u string) string {
	u, _, _ = strings.Cut(u, "#")
	base, q, _ := strings.Cut(u, "?")
	i := strings.Index(base, "://")
	if i < 0 {
		return u
	}
	host, path := base[i+3:], ""
	if j := strings.IndexByte(host, '/'); j >= 0 {
		host, path = host[:j], host[j:]
	}
	if path == "" {
		path = "/"
	}
	host = strings.TrimSuffix(strings.ToLower(host), ":80")
	var ps []string
	for _, p := range strings.Split(q, "&") {
		if p == "" {
			continue
		}
		k, v, _ := strings.Cut(p, "=")
		dk, e1 := url.QueryUnescape(k)
		dv, e2 := url.QueryUnescape(v)
		if e1 != nil || e2 != nil || strings.Contains(p, ";") {
			ps = append(ps, "raw:"+p)
			continue
		}
		ps = append(ps, fmt.Sprintf("%q=%q", dk, dv))
	}
	sort.Strings(ps)
	return strings.ToLower(base[:i]) + "://" + host + path + "?" + strings.Join(ps, "&")
}

type c14issuer struct {
	ca   *crlw.CA
	urls []string
	// what was asked for, by wireID
	asked map[string]string
}

type c14world struct {
	run     *mon.Run
	r       *rand.Rand
	srv     *crlw.Server
	dir     string
	crlpath string
	iss     []*c14issuer
	mu      sync.Mutex
	round   int
	mod     time.Time
	cache   map[string][]byte
}

func pickS(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

// Families of URLs whose members are easily confused.
func c14urls(r *rand.Rand, host string) []string {
	n := func() string { return fmt.Sprintf("%d", r.Intn(30)) }
	long := func(k int) string {
		b := make([]byte, k)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEF-_.~%"[r.Intn(46)]
		}
		return string(b)
	}
	sub := pickS(r, "", "a.", "A.", "a-b.", "a_b.", "crl.", "x"+n()+".", "..", ".")
	h := sub + host
	if r.Intn(6) == 0 {
		h += pickS(r, ":8080", ":81", ":8")
	}
	b := "http://" + h
	switch k := r.Intn(22); k {
	case 0: // same base name, other directories
		return []string{b + "/a/x.crl", b + "/b/x.crl", b + "/x.crl", b + "/a/b/x.crl", b + "/ab/x.crl", b + "//x.crl", b + "/a//x.crl", b + "/a/x.crl/"}
	case 1: // letter case
		return []string{b + "/Ca" + n() + ".crl", b + "/ca" + n() + ".crl", b + "/CA1.CRL", b + "/ca1.crl", b + "/ca1.Crl", b + "/CA1"}
	case 2: // with and without the suffix, twice
		return []string{b + "/c" + n(), b + "/c1.crl", b + "/c1.crl.crl", b + "/c1", b + "/c1.", b + "/c1.crl."}
	case 3: // dot segments
		d := n()
		return []string{b + "/../vh-" + d, b + "/../../vh-" + d, b + "/a/../vh-" + d, b + "/..", b + "/.", b + "/...", b + "/", b, b + "/a/..", b + "/./."}
	case 4: // encoded slashes and dots
		return []string{b + "/%2e%2e%2fvh-" + n(), b + "/..%2f..%2fvh-" + n(), b + "/a%2fb", b + "/a/b", b + "/a%2Fb", b + "/%2e%2e/vh-" + n(), b + "/%2e", b + "/%2e%2e",
			b + "/%2F", b + "/%5c..%5cvh", b + `/..\vh`, b + "/a%2f"}
	case 5: // strange bytes
		return []string{b + "/a%00b", b + "/a%0ab", b + "/%00", b + "/%ff%fe.crl", b + "/\u00fc.crl", b + "/%C3%BC.crl", b + "/\u65e5\u672c.crl", b + "/\u0130.crl", b + "/a%20b", b + "/a+b", b + "/a%2Bb", b + "/%7f"}
	case 6: // characters that are removed from names
		return []string{b + "/a_b", b + "/a@b", b + "/a:b", b + "/a*b", b + "/a'b", b + "/a(b)", b + "/a;b", b + "/a,b", b + "/ab", b + "/a$b", b + "/a&b", b + "/a=b", b + "/a!b"}
	case 7: // queries
		return []string{b + "/q?a=1", b + "/q?a=2", b + "/q?b=1", b + "/q", b + "/q?a=1&b=2", b + "/q?b=2&a=1", b + "/q?a=12", b + "/q?a=1&a=2", b + "/q?a1", b + "/q?a=1&b=3", b + "/q-a1", b + "/qa1"}
	case 8: // queries that are the same to some parsers
		return []string{b + "/q?a=%31&x=1", b + "/q?a=%41", b + "/q?a=A", b + "/q?a=%61", b + "/q?a=a+b", b + "/q?a=a%20b", b + "/q?a=a%2Bb", b + "/q?A=a", b + "/q?a=/../vh", b + "/q?a=%2F..%2Fvh"}
	case 9: // semicolons and broken escapes
		return []string{b + "/s?a;b", b + "/s?b;a", b + "/s?a;c", b + "/s?;", b + "/s", b + "/s?a=1;b=2", b + "/s?a=1;b=3", b + "/s?a=%zz", b + "/s?a=%zy", b + "/s?a=%", b + "/s?%", b + "/s?x=1&a=%zz", b + "/s?x=1"}
	case 10: // ldap-like names in the query, with commas and spaces
		d := n()
		return []string{b + "/cn=CA" + d + ",o=Org,c=US?certificateRevocationList;binary", b + "/cn=CA" + d + ",o=Org,c=US?certificateRevocationList;base64",
			b + "/cn=CA" + d + ",o=Org,c=DE?certificateRevocationList;binary", b + "/cn=CA%20" + d + ",%20o=Org"}
	case 11: // long paths
		var us []string
		for _, l := range []int{120, 180, 200, 210, 215, 220, 225, 228, 229, 230, 231, 232, 233, 235, 240, 250, 255, 256, 300, 1000, 3000} {
			if r.Intn(3) == 0 {
				us = append(us, b+"/"+strings.ReplaceAll(long(l), "%", "x"))
			}
		}
		return us
	case 12: // long and different only at the end, or in the middle
		p := strings.ReplaceAll(long(100+r.Intn(300)), "%", "y")
		return []string{b + "/" + p + "1", b + "/" + p + "2", b + "/" + p + "1.crl", b + "/" + p[:50] + "0" + p[51:], b + "/" + p + "?1", b + "/" + p + "?2"}
	case 13: // long queries
		p := strings.ReplaceAll(long(200+r.Intn(1500)), "%", "z")
		return []string{b + "/q?k=" + p + "1", b + "/q?k=" + p + "2", b + "/q?" + p + "&x=1", b + "/q?x=1&" + p, b + "/q?" + p + "&x=2"}
	case 14: // long hosts
		l := strings.Repeat(pickS(r, "a", "b", "c-d"), 20)
		return []string{"http://" + l + "." + l + "." + l + "." + host + "/x.crl", "http://" + l + "." + l + "." + l + "." + host + "/y.crl", "http://" + l + "." + l + "." + l + "x." + host + "/x.crl"}
	case 15: // host and path divided differently
		return []string{"http://a-b." + host + "/c", "http://a." + host + "/b-c", "http://" + host + "/a-c", "http://" + host + "/-c", "http://" + host + "-c/", "http://" + host + "/c?x", "http://" + host + "/c-x", "http://" + host + ":8080/c", "http://" + host + ":80/c", "http://" + host + ":8081/c"}
	case 16: // names other CRLs of the issuer use while they are written
		return []string{b + "/t.crl", b + "/t.crl.tmp", b + "/t.tmp", b + "/t.crl-0123456789abcdef.crl", b + "/t-0123456789abcdef", b + "/t-0123456789abcdef.crl.tmp"}
	case 17: // names that mean something to file systems or shells
		return []string{b + "/~", b + "/~vh", b + "/-rf", b + "/$(vh)", b + "/`vh`", b + "/|vh", b + "/CON", b + "/nul", b + "/*", b + "/.vh", b + "/..crl", b + "/.crl"}
	case 18: // escapes that need not be there
		return []string{b + "/%61.crl", b + "/a.crl", b + "/%41.crl", b + "/A.crl", b + "/a%2ecrl", b + "/a.%63rl", b + "/%2561.crl"}
	case 19: // fragments and empty parts
		return []string{b + "/f#x", b + "/f", b + "/f?", b + "/f?&", b + "/f?=", b + "/f?a", b + "/f?a=", b + "/f?a=&", b + "/f?=a", b + "/f?a==", b + "/f?a=&b", b + "/f??a"}
	case 20: // many shards
		var us []string
		f := pickS(r, "/shard%d.crl", "/s?shard=%d", "/s/%d/", "/s/%d/latest.crl", "/%d", "/s?a=1&shard=%d&z=2", "/p%%20q/%d")
		for i := 0; i < 12; i++ {
			us = append(us, b+fmt.Sprintf(f, r.Intn(1000)))
		}
		return us
	}
	// anything
	var us []string
	for i := 0; i < 6; i++ {
		p := long(1 + r.Intn(40))
		for j := range p {
			if p[j] == '%' {
				p = p[:j] + "%25" + p[j+1:]
			}
		}
		us = append(us, b+"/"+strings.Replace(p, "_", "/", 2))
	}
	return us
}

// crlFor makes the CRL of this round for a URL: its serial is unique.
func (w *c14world) serve(u string) *crlw.Resp {
	w.mu.Lock()
	defer w.mu.Unlock()
	id := wireID(u)
	base, _, _ := strings.Cut(strings.TrimPrefix(id, "http://"), "/")
	base, _, _ = strings.Cut(base, ":")
	base = strings.TrimSuffix(base, "-c")
	i := -1
	if _, t, ok := cutLast(base, "i"); ok {
		fmt.Sscanf(t, "%d.example", &i)
	}
	if i < 0 || i >= len(w.iss) {
		return &crlw.Resp{Kind: "status", Code: 404, Body: []byte("no such host " + base)}
	}
	is := w.iss[i]
	is.asked[id] = u
	return &crlw.Resp{Kind: "ok", Body: w.body(is, id), LastMod: w.mod}
}

func cutLast(s, sep string) (a, b string, ok bool) {
	i := strings.LastIndex(s, sep)
	if i < 0 {
		return s, "", false
	}
	// "i<n>.example"
	j := strings.LastIndex(s[:strings.LastIndex(s, ".")+1], "i")
	return s[:j], s[j+1:], true
}

func (w *c14world) body(is *c14issuer, id string) []byte {
	k := fmt.Sprintf("%d %s %s", w.round, is.ca.ID(), id)
	if b, ok := w.cache[k]; ok {
		return b
	}
	h := sha256.Sum256([]byte(k))
	s := append([]byte{0x21}, h[:15]...)
	c := &der.CRL{Issuer: is.ca.Name, This: time.Now().Add(-time.Hour), Next: time.Now().Add(100 * time.Hour),
		Entries: []der.Revoked{{Serial: s, Reason: -1, Time: time.Now()}}, Exts: [][]byte{der.CRLNumber(1)}}
	b := c.Sign(is.ca.Key)
	w.cache[k] = b
	return b
}

func c14(run *mon.Run) {
	run.Rule = "a URL (as a server can tell it) whose file was identified by its content in a run"
	mon.Par(8, run.Pick(40, 600), func(i int) {
		if run.Violations() > 10 {
			return
		}
		c14World(run, run.Rand("c14", i), i)
	})
}

func c14World(run *mon.Run, r *rand.Rand, wi int) {
	top, err := os.MkdirTemp(run.Scratch, "c14")
	if err != nil {
		mon.Infra("%v", err)
	}
	defer os.RemoveAll(top)
	w := &c14world{run: run, r: r, srv: crlw.NewServer(), dir: top, crlpath: filepath.Join(top, "1/2/3/4/5/6/7/8/crls"), cache: map[string][]byte{}}
	defer w.srv.Close()
	w.srv.Def = w.serve
	os.MkdirAll(w.crlpath, 0755)
	root := crlw.Root("Root")
	rows := []crlw.Row{crlw.RootRow(root)}
	for i := 0; i < 4; i++ {
		is := &c14issuer{ca: root.Sub(fmt.Sprintf("I%d", i))}
		host := fmt.Sprintf("i%d.example", i)
		for len(is.urls) < 60 {
			for _, u := range c14urls(r, host) {
				pu, err := url.Parse(u)
				if err != nil || pu.Scheme != "http" {
					continue
				}
				is.urls = append(is.urls, u)
			}
		}
		r.Shuffle(len(is.urls), func(a, b int) { is.urls[a], is.urls[b] = is.urls[b], is.urls[a] })
		rows = append(rows, crlw.SubRow(is.ca, is.urls[0], crlw.JSONArray(is.urls[1:])))
		w.iss = append(w.iss, is)
	}
	ccadb := filepath.Join(top, "ccadb.csv")
	os.WriteFile(ccadb, crlw.Report(r, rows), 0644)

	before := map[string]bool{}
	prev := map[string]string{} // issuer+wireID: name
	for round := 0; round < 3; round++ {
		out := filepath.Join(top, fmt.Sprintf("out%d", round))
		os.MkdirAll(out, 0755)
		w.mu.Lock()
		if round != 1 { // the second run finds everything up to date
			w.round = round
			w.mod = time.Now().Add(time.Duration(-48+12*round) * time.Hour).Truncate(time.Second)
		}
		for _, is := range w.iss {
			is.asked = map[string]string{}
		}
		w.mu.Unlock()
		if round == 0 {
			filepath.WalkDir(top, func(p string, d fs.DirEntry, err error) error { before[p] = true; return nil })
		}
		p, err := proc.Start(filepath.Join(bin, "aggregate-crls"), []string{"-ccadb", ccadb, "-crlpath", w.crlpath, "-revokedpath", filepath.Join(out, "revoked"),
			"-enrolledpath", filepath.Join(out, "enrolled.json"), "-auditpath", filepath.Join(out, "audit.json"), "-stderrthreshold=INFO"},
			append(proc.BaseEnv(top), "http_proxy=http://"+w.srv.Addr, "numThreads=8"), top)
		if err != nil {
			mon.Infra("%v", err)
		}
		res := p.Wait(120 * time.Second)
		if res.Code != 0 {
			run.Violation("run-failed", fmt.Sprintf("world %d: aggregate-crls did not complete although every CRL was served: %s", wi, res), map[string]any{"stderr": tail(res.Stderr)})
			return
		}
		// confinement
		filepath.WalkDir(top, func(p string, d fs.DirEntry, err error) error {
			if err != nil || before[p] || strings.HasPrefix(p, filepath.Join(top, "out")) || strings.HasPrefix(filepath.Base(p), "aggregate-crls") {
				return nil
			}
			rel, _ := filepath.Rel(w.crlpath, p)
			parts := strings.Split(rel, string(filepath.Separator))
			ok := false
			for _, is := range w.iss {
				if parts[0] == is.ca.ID() && (d.IsDir() && len(parts) == 1 || !d.IsDir() && len(parts) == 2) {
					ok = true
				}
			}
			if !ok {
				run.Violation("outside", fmt.Sprintf("world %d: %q appeared, which is not a file directly in an issuer's directory", wi, rel), map[string]any{"dir": d.IsDir()})
			}
			return nil
		})
		for _, is := range w.iss {
			w.judge(is, wi, round, prev, res)
		}
	}
	if wi == 0 {
		run.Sample("urls", w.iss[0].urls[:10])
	}
}

func (w *c14world) judge(is *c14issuer, wi, round int, prev map[string]string, res proc.Result) {
	run := w.run
	content := map[string][]string{}
	es, _ := os.ReadDir(filepath.Join(w.crlpath, is.ca.ID()))
	var names []string
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(w.crlpath, is.ca.ID(), e.Name()))
		if err == nil {
			h := sha256.Sum256(b)
			content[hex.EncodeToString(h[:])] = append(content[hex.EncodeToString(h[:])], e.Name())
		}
		names = append(names, e.Name())
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	known := map[string]bool{}
	ids := map[string][]string{}
	for _, u := range is.urls {
		pu, _ := url.Parse(u)
		id := wireID(pu.String())
		ids[id] = append(ids[id], u)
	}
	for id, u := range is.asked {
		if ids[id] == nil {
			run.Violation("asked", fmt.Sprintf("world %d round %d: issuer %s: a URL was fetched that its certificate does not disclose: %s", wi, round, is.ca.CN, u), map[string]any{"urls": is.urls})
		}
	}
	for id, us := range ids {
		run.Eval(fmt.Sprintf("%d %d %s %s", wi, round, is.ca.ID(), id))
		run.Count("URLs", 1)
		want := w.body(is, id)
		h := sha256.Sum256(want)
		fs := content[hex.EncodeToString(h[:])]
		if len(fs) == 0 {
			key := "lost"
			if is.asked[id] == "" {
				key = "not-fetched"
			}
			// who has it?
			who := ""
			if n := prev[is.ca.ID()+id]; n != "" {
				who = " (its file was " + n + ")"
			}
			run.Violation(key, fmt.Sprintf("world %d round %d: no file holds the CRL of %q of %s%s", wi, round, us, is.ca.CN, who),
				map[string]any{"asked": is.asked[id], "wire identity": id, "files": names, "stderr": grep(res.Stderr, us[0], 5)})
			continue
		}
		if len(fs) > len(us) {
			run.Violation("twice", fmt.Sprintf("world %d round %d: the CRL of %q is in more than one file: %v", wi, round, us, fs), nil)
		}
		for _, f := range fs {
			known[f] = true
		}
		if len(us) == 1 || len(fs) == 1 {
			k := is.ca.ID() + id
			if p := prev[k]; p != "" && p != fs[0] {
				run.Violation("moved", fmt.Sprintf("world %d round %d: the CRL of %q moved from %s to %s", wi, round, us, p, fs[0]), nil)
			}
			prev[k] = fs[0]
		}
	}
	for _, n := range names {
		if !known[n] {
			b, _ := os.ReadFile(filepath.Join(w.crlpath, is.ca.ID(), n))
			run.Violation("stray", fmt.Sprintf("world %d round %d: file %s of %s is not the CRL of any of its URLs", wi, round, n, is.ca.CN), map[string]any{"size": len(b), "empty": len(bytes.TrimSpace(b)) == 0})
		}
	}
}

func grep(s, pat string, n int) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, pat) || strings.Contains(l, "name too long") {
			out = append(out, l)
			if len(out) == n {
				break
			}
		}
	}
	return out
}

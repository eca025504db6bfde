package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/rootprogram"

	"vharness/lib/crlw"
	"vharness/lib/der"
	"vharness/lib/mon"
	"vharness/lib/proc"
)

// A certificate of a report, with everything that decides whether it is
// enrolled known from how it was made.
type node struct {
	name    string
	subject []byte
	key     *der.Key
	root    bool
	parents []*node // names and keys that could have signed it: exactly one signed
	signer  *node   // nil: self-signed, or the signature is wrong
	badSig  bool
	ca      bool
	pathlen int // -1 none
	eku     int // 0 none, 1 server, 2 client, 3 both, 4 any
	timeOK  bool
	revoked bool
	typ     string
	absent  bool // not in the report
	der     []byte
	full    string
	json    string
	crls    []string // what the two fields disclose
	part    bool
}

type report struct {
	nodes []*node
	csv   []byte
	descr []string
}

// what a report must result in
type want struct {
	certs map[string]map[string]bool // issuer ID: certificates (as bytes)
	crls  map[string]map[string]bool
	part  map[string]bool
}

func (n *node) ekuOK() bool { return n.eku != 2 }

// chains says whether a path from n leads to an unrevoked root in the report.
// With strict, no key occurs twice on the path: the verification library does
// not follow such paths, and reports that depend on them are not used.
func (rp *report) chains(n *node, below int, seen map[*node]bool, strict bool) bool {
	// n is accepted as a member of the path with `below` certificates under it
	if !n.timeOK || !n.ekuOK() || n.badSig {
		return false
	}
	if n.pathlen >= 0 && below-1 > n.pathlen {
		return false
	}
	if below > 0 && !n.ca {
		return false
	}
	if n.signer == nil {
		return false
	}
	for _, p := range rp.nodes {
		if p == n || seen[p] || p.absent || p.revoked || p.key != n.signer.key || !bytes.Equal(p.subject, n.signer.subject) {
			continue
		}
		twice := false
		for q := range seen {
			twice = twice || q.key == p.key
		}
		if strict && twice {
			continue
		}
		if p.root {
			if p.timeOK && p.ca && (p.pathlen < 0 || below <= p.pathlen) && p.typ == "Root Certificate" {
				return true
			}
			continue
		}
		if p.typ != "Intermediate Certificate" {
			continue
		}
		seen[p] = true
		if rp.chains(p, below+1, seen, strict) {
			return true
		}
		delete(seen, p)
	}
	return false
}

func (rp *report) want() *want {
	w := &want{map[string]map[string]bool{}, map[string]map[string]bool{}, map[string]bool{}}
	for _, n := range rp.nodes {
		if n.root || n.absent || n.revoked || n.typ != "Intermediate Certificate" || !rp.chains(n, 0, map[*node]bool{n: true}, true) {
			continue
		}
		id := n.key.ID()
		if w.certs[id] == nil {
			w.certs[id], w.crls[id] = map[string]bool{}, map[string]bool{}
		}
		w.certs[id][string(n.der)] = true
		for _, u := range n.crls {
			w.crls[id][u] = true
		}
		w.part[id] = w.part[id] || n.part
	}
	return w
}

func (n *node) sign(r *rand.Rand) {
	signer, issuer := n, n.subject
	if n.signer != nil {
		signer, issuer = n.signer, n.signer.subject
	}
	c := der.Cert{Serial: []byte{byte(1 + r.Intn(120)), byte(r.Intn(256))}, Issuer: issuer, Subject: n.subject, SPKI: n.key.SPKI, Signer: signer.key}
	now := time.Now()
	nb, na := now.AddDate(-1, 0, 0), now.AddDate(5, 0, 0)
	if !n.timeOK {
		if r.Intn(2) == 0 {
			nb, na = now.AddDate(-3, 0, 0), now.Add(-time.Hour)
		} else {
			nb, na = now.Add(24*time.Hour), now.AddDate(4, 0, 0)
		}
	}
	c.NotBefore, c.NotAfter = der.Time(nb), der.Time(na)
	var bc [][]byte
	if n.ca {
		bc = append(bc, der.Bool(true))
		if n.pathlen >= 0 {
			bc = append(bc, der.Int([]byte{byte(n.pathlen)}))
		}
	}
	c.Exts = append(c.Exts, der.Ext(true, der.Seq(bc...), 2, 5, 29, 19), der.KeyUsage(0x06, 1))
	srv, cli := der.OID(1, 3, 6, 1, 5, 5, 7, 3, 1), der.OID(1, 3, 6, 1, 5, 5, 7, 3, 2)
	switch n.eku {
	case 1:
		c.Exts = append(c.Exts, der.Ext(false, der.Seq(srv), 2, 5, 29, 37))
	case 2:
		mail := der.OID(1, 3, 6, 1, 5, 5, 7, 3, 4)
		c.Exts = append(c.Exts, der.Ext(false, der.Seq(cli, mail), 2, 5, 29, 37))
	case 3:
		c.Exts = append(c.Exts, der.Ext(false, der.Seq(cli, srv), 2, 5, 29, 37))
	case 4:
		c.Exts = append(c.Exts, der.Ext(false, der.Seq(der.OID(2, 5, 29, 37, 0)), 2, 5, 29, 37))
	}
	if r.Intn(3) == 0 {
		h := sha256.Sum256(n.key.SPKI)
		c.Exts = append(c.Exts, der.Ext(false, der.Octets(h[:20]), 2, 5, 29, 14))
	}
	if r.Intn(12) == 0 && !n.root { // a deviation that leaves the certificate usable
		// an authority information access extension that is empty
		c.Exts = append(c.Exts, der.Ext(false, der.Seq(), 1, 3, 6, 1, 5, 5, 7, 1, 1))
		n.name += " (empty AIA)"
	}
	if n.badSig {
		c.Signer = der.NewKey()
	}
	n.der = c.DER()
}

func c15url(r *rand.Rand) (text, canon string) {
	h := fmt.Sprintf("://c%d.example", r.Intn(4))
	p := fmt.Sprintf("/%d.crl", r.Intn(40))
	switch r.Intn(9) {
	case 0:
		return "HTTP" + h + p, "http" + h + p
	case 1:
		return "https" + h + p, "https" + h + p
	case 2:
		return "http" + h + "/cn=A,o=B" + p, "http" + h + "/cn=A,o=B" + p
	case 3:
		return "http" + h + p + "?a=1&b=2", "http" + h + p + "?a=1&b=2"
	case 4:
		return "http" + h + ":8080" + p, "http" + h + ":8080" + p
	}
	return "http" + h + p, "http" + h + p
}

func (n *node) fields(r *rand.Rand) {
	n.full, n.json, n.crls, n.part = "", "", nil, false
	switch r.Intn(8) {
	case 0, 1, 2:
		t, c := c15url(r)
		n.crls = append(n.crls, c)
		n.full = pickS(r, t, t, " "+t+" ", `"`+t+`"`, t+"\n")
	case 3:
		n.full = pickS(r, "ldap://dir.example/cn=x?certificateRevocationList", "n/a", "revoked", "http//missing", "ftp://f.example/x.crl", "http://[bad", "file:///etc/vh", "://x", "expired")
	}
	switch r.Intn(6) {
	case 0, 1:
		var es []string
		exact := true
		for i := 0; i < 1+r.Intn(4); i++ {
			t, c := c15url(r)
			if r.Intn(8) == 0 {
				es = append(es, pickS(r, `"ldap://d.example/x"`, `""`, `"n/a"`, `"http://[bad"`, `"http://h.example/%zz"`, `"://x"`, `"http://h.example:port/"`))
				n.part = n.part || es[len(es)-1] != `""`
				continue
			}
			n.part = true
			n.crls = append(n.crls, c)
			if strings.Contains(t, ",") {
				exact = false
			}
			q := `"` + t + `"`
			switch r.Intn(6) {
			case 0:
				q = `"` + strings.ReplaceAll(t, "/", `\/`) + `"`
				exact = false
			case 1:
				b, _ := json.Marshal(t) // & as an escape
				q = string(b)
				if strings.Contains(q, `\`) {
					exact = false
				}
			}
			es = append(es, q)
		}
		sep := pickS(r, ",", ", ", ",\n", " , ")
		n.json = "[" + strings.Join(es, sep) + "]"
		if exact && r.Intn(6) == 0 { // not quite JSON
			n.json = pickS(r, strings.ReplaceAll(n.json, `"`, ""), strings.Trim(n.json, "[]"), "["+strings.Join(es, sep)+",]", " "+n.json+" ")
		}
	case 2:
		n.json = pickS(r, "[]", "[ ]", " ", `[""]`)
	}
}

func c15report(r *rand.Rand) *report {
	for {
		rp := c15draw(r)
		ok := len(rp.descr) > 0
		for _, n := range rp.nodes {
			if !n.root && rp.chains(n, 0, map[*node]bool{n: true}, true) != rp.chains(n, 0, map[*node]bool{n: true}, false) {
				ok = false
			}
		}
		if ok {
			return rp
		}
	}
}

func c15draw(r *rand.Rand) *report {
	rp := &report{}
	keys := []*der.Key{}
	for i := 0; i < 12; i++ {
		keys = append(keys, keyPool(r.Intn(64)))
	}
	mk := func(name string) *node {
		n := &node{name: name, subject: der.NameO("VH", name), key: keys[r.Intn(len(keys))], ca: true, pathlen: -1, timeOK: true, typ: "Intermediate Certificate"}
		return n
	}
	for i := 0; i < 1+r.Intn(3); i++ {
		n := mk(fmt.Sprintf("Root %d", i))
		n.key = keys[i]
		n.root, n.typ = true, "Root Certificate"
		switch r.Intn(10) {
		case 0:
			n.revoked = true
		case 1:
			n.absent = true
		case 2:
			n.timeOK = false
		case 3:
			n.pathlen = r.Intn(3)
		}
		rp.nodes = append(rp.nodes, n)
	}
	ni := 1 + r.Intn(9)
	for i := 0; i < ni; i++ {
		n := mk(fmt.Sprintf("CA %d", i))
		n.key = keys[3+r.Intn(len(keys)-3)]
		// same name and key as an earlier one (cross-certificate), the same
		// name with another key, the same key with another name
		if i > 0 && r.Intn(4) == 0 {
			o := rp.nodes[r.Intn(len(rp.nodes))]
			switch r.Intn(3) {
			case 0:
				n.subject, n.key = o.subject, o.key
			case 1:
				n.subject = o.subject
			case 2:
				n.key = o.key
			}
		}
		k := len(rp.nodes)
		n.signer = rp.nodes[r.Intn(k)]
		if r.Intn(2) == 0 {
			n.signer = rp.nodes[0]
		}
		switch r.Intn(16) {
		case 0:
			n.badSig = true
		case 1:
			n.eku = 2
		case 2:
			n.pathlen = r.Intn(2)
		case 3:
			n.timeOK = false
		case 4, 5:
			n.revoked = true
		case 6:
			n.absent = true
		case 7:
			n.typ = pickS(r, "Other", "", "intermediate")
		default:
			n.eku = []int{0, 1, 1, 3, 4}[r.Intn(5)]
		}
		rp.nodes = append(rp.nodes, n)
	}
	if r.Intn(3) == 0 && len(rp.nodes) > 3 { // a cycle: two certify each other
		a, b := rp.nodes[len(rp.nodes)-1], rp.nodes[len(rp.nodes)-2]
		if !a.root && !b.root {
			c := mk("x")
			c.subject, c.key, c.signer, c.eku = b.subject, b.key, a, 1
			rp.nodes = append(rp.nodes, c)
		}
	}
	var rows []crlw.Row
	for _, n := range rp.nodes {
		n.sign(r)
		n.fields(r)
		if n.absent {
			continue
		}
		row := crlw.Row{Cert: n.der, Type: n.typ, Revoked: pickS(r, "Not Revoked", "Not Revoked", ""), Full: n.full, JSON: n.json}
		if n.revoked {
			row.Revoked = pickS(r, "Revoked", "Parent Cert Revoked", "Revoked (superseded)", "revoked")
		}
		rows = append(rows, row)
		if r.Intn(8) == 0 {
			rows = append(rows, row)
		}
		rp.descr = append(rp.descr, n.describe())
	}
	for i := 0; i < r.Intn(3); i++ { // rows that are no certificates
		g := rp.nodes[r.Intn(len(rp.nodes))]
		bad := crlw.Row{Type: pickS(r, "Intermediate Certificate", "Root Certificate"), Revoked: "Not Revoked", Full: "http://bad.example/x.crl"}
		switch r.Intn(5) {
		case 0:
			bad.PEM = "not a certificate"
		case 1:
			bad.PEM = string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: g.der}))
		case 2:
			bad.PEM = der.PEM(g.der[:len(g.der)/2])
		case 3:
			bad.PEM = " "
		case 4:
			bad.PEM = strings.Replace(der.PEM(g.der), "MII", "M!!", 1)
		}
		rows = append(rows, bad)
	}
	r.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	rp.csv = crlw.Report(r, rows)
	return rp
}

func (n *node) describe() string {
	iss := "self"
	if n.signer != nil {
		iss = fmt.Sprintf("%s/%s", n.signer.name, n.signer.key.ID()[:6])
	}
	return fmt.Sprintf("%s key=%s by %s type=%q revoked=%v ca=%v pathlen=%d eku=%d valid now=%v bad signature=%v full=%q json=%q", n.name, n.key.ID()[:6], iss, n.typ, n.revoked, n.ca, n.pathlen, n.eku, n.timeOK, n.badSig, n.full, n.json)
}

var pool = make([]*der.Key, 64)

func keyPool(i int) *der.Key { return pool[i] }

type c15case struct {
	run  *mon.Run
	name string
	tool bool // also run get-mozilla-issuers
}

func (c *c15case) viol(key, desc string, rp *report, more map[string]any) {
	d := map[string]any{"report": rp.descr, "csv": string(rp.csv)}
	for k, v := range more {
		d[k] = v
	}
	c.run.Violation(key, c.name+": "+desc, d)
}

// judge compares loaded issuers with what the report says.
func (c *c15case) judge(mi *rootprogram.MozIssuers, rp *report, crls bool) bool {
	w := rp.want()
	good := true
	bad := func(key, f string, a ...any) {
		good = false
		c.viol(key, fmt.Sprintf(f, a...), rp, nil)
	}
	got := map[string]bool{}
	for _, is := range mi.GetIssuers() {
		id := is.ID()
		if got[id] {
			bad("issuer-twice", "issuer %s is listed twice", id)
		}
		got[id] = true
		if w.certs[id] == nil {
			bad("extra", "issuer %s is enrolled without an unrevoked TLS intermediate that chains to a root", id)
		}
	}
	for id := range w.certs {
		if !got[id] {
			bad("missing", "issuer %s is not enrolled", id)
			continue
		}
		is := types.NewIssuerFromString(id)
		if !mi.IsIssuerInProgram(is) {
			bad("not-in-program", "issuer %s is listed but not in the program", id)
		}
		cert, err := mi.GetCertificateForIssuer(is)
		if err != nil || !w.certs[id][string(cert.Raw)] {
			bad("certificate", "issuer %s: certificate not one of its own (%v)", id, err)
		}
		p, err := mi.GetUsesPartitionedCrlsForIssuer(is)
		if err != nil || p != w.part[id] {
			bad("partitioned", "issuer %s: uses partitioned CRLs: %v (%v), the report says %v", id, p, err, w.part[id])
		}
		if !crls {
			continue
		}
		for u := range w.crls[id] {
			if !mi.CrlMap[id][u] {
				bad("crl-missing", "issuer %s: CRL URL %q is disclosed but not used; used: %q", id, u, keysOf(mi.CrlMap[id]))
			}
		}
		for u, on := range mi.CrlMap[id] {
			if !w.crls[id][u] || !on {
				bad("crl-extra", "issuer %s: CRL URL %q is used but not disclosed", id, u)
			}
		}
	}
	if crls {
		for id := range mi.CrlMap {
			if w.certs[id] == nil {
				bad("crl-stranger", "CRLs of issuer %s are used although it is not enrolled", id)
			}
		}
	}
	for _, n := range rp.nodes {
		if is := types.NewIssuerFromString(n.key.ID()); w.certs[n.key.ID()] == nil && mi.IsIssuerInProgram(is) {
			bad("in-program", "issuer %s is in the program although no certificate of it may be", n.key.ID())
		}
	}
	c.run.Count("issuers judged", len(w.certs))
	return good
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func c15(run *mon.Run) {
	run.Level = "fault_enumeration"
	run.Rule = "a report whose resulting issuers, certificates, URLs and saved list were compared with the model, or one load of a history of fetches"
	for i := range pool {
		pool[i] = der.NewKey()
	}
	mon.Par(8, run.Pick(9000, 120000), func(i int) {
		if run.Violations() > 15 {
			return
		}
		c15One(run, run.Rand("c15", i), i)
	})
	mon.Par(8, run.Pick(900, 9000), func(i int) {
		if run.Violations() > 15 {
			return
		}
		c15History(run, run.Rand("c15h", i), i)
	})
}

func c15One(run *mon.Run, r *rand.Rand, i int) {
	dir, err := os.MkdirTemp(run.Scratch, "c15")
	if err != nil {
		mon.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	rp := c15report(r)
	c := &c15case{run: run, name: fmt.Sprintf("report %d", i)}
	p := filepath.Join(dir, "r.csv")
	os.WriteFile(p, rp.csv, 0644)
	mi := rootprogram.NewMozillaIssuers()
	if r.Intn(4) == 0 { // an earlier report leaves nothing behind
		prev := c15report(r)
		os.WriteFile(p+"0", prev.csv, 0644)
		mi.LoadFromDisk(p + "0")
	}
	run.Eval(fmt.Sprintf("report %d", i))
	if err := mi.LoadFromDisk(p); err != nil {
		c.viol("load", fmt.Sprintf("a well-formed report was rejected: %v", err), rp, nil)
		return
	}
	if !c.judge(mi, rp, true) {
		return
	}
	c.list(r, dir, mi, rp)
	if i%20 == 0 {
		c.program(dir, rp)
		c.tool = true
	}
	c.malformed(r, dir, rp)
}

// list saves and reloads the enrolled list.
func (c *c15case) list(r *rand.Rand, dir string, mi *rootprogram.MozIssuers, rp *report) {
	w := rp.want()
	p := filepath.Join(dir, "enrolled.json")
	if r.Intn(2) == 0 {
		os.WriteFile(p, bytes.Repeat([]byte("x"), 100000), 0644) // an older, longer one
	}
	for round := 0; round < 2; round++ {
		if err := mi.SaveIssuersList(p); err != nil {
			c.viol("save", fmt.Sprintf("saving the enrolled list failed: %v", err), rp, nil)
			return
		}
		if mi = c.listFile(p, rp, w); mi == nil {
			return
		}
	}
}

// program runs get-mozilla-issuers on the report.
func (c *c15case) program(dir string, rp *report) {
	bin := filepath.Join(os.Getenv("VH_BIN"), "get-mozilla-issuers")
	p := filepath.Join(dir, "prog.json")
	res := proc.Run(bin, []string{"-ccadb", filepath.Join(dir, "r.csv"), "-out", p}, proc.BaseEnv(dir), dir, 60*time.Second)
	c.run.Count("get-mozilla-issuers runs", 1)
	if res.TimedOut || res.Code != 0 {
		c.viol("program", fmt.Sprintf("get-mozilla-issuers rejected a well-formed report: %v", res), rp, nil)
		return
	}
	c.listFile(p, rp, rp.want())
	cmd := exec.Command(bin, "-ccadb", filepath.Join(dir, "r.csv"))
	cmd.Dir, cmd.Env = dir, proc.BaseEnv(dir)
	out, err := cmd.Output()
	var ids []string
	if err == nil {
		err = json.Unmarshal(out, &ids)
	}
	got := map[string]bool{}
	for _, id := range ids {
		got[id] = true
	}
	same := err == nil && len(got) == len(ids)
	for id := range rp.want().certs {
		same = same && got[id]
		delete(got, id)
	}
	if !same || len(got) > 0 {
		c.viol("program-list", fmt.Sprintf("get-mozilla-issuers printed something else than the issuers of the report (%v): %q", err, out), rp, nil)
	}
}

// listFile compares an enrolled list with the model and loads it.
func (c *c15case) listFile(p string, rp *report, w *want) *rootprogram.MozIssuers {
	{
		b, _ := os.ReadFile(p)
		var list []map[string]any
		if err := json.Unmarshal(b, &list); err != nil {
			c.viol("list-json", fmt.Sprintf("the enrolled list is not JSON: %v", err), rp, map[string]any{"list": string(b)})
			return nil
		}
		n := 0
		left := map[string]bool{}
		for id, cs := range w.certs {
			n += len(cs)
			for d := range cs {
				left[id+d] = true
			}
		}
		for _, e := range list {
			pm, _ := e["pem"].(string)
			blk, rest := pem.Decode([]byte(pm))
			if blk == nil || len(bytes.TrimSpace(rest)) > 0 || blk.Type != "CERTIFICATE" {
				c.viol("list-pem", fmt.Sprintf("an entry of the enrolled list has a damaged certificate: %q", pm), rp, nil)
				return nil
			}
			cert, err := ctx509.ParseCertificate(blk.Bytes)
			if ctx509.IsFatal(err) {
				c.viol("list-cert", fmt.Sprintf("an entry of the enrolled list has a certificate that does not parse: %v", err), rp, nil)
				return nil
			}
			kh := sha256.Sum256(cert.RawSubjectPublicKeyInfo)
			id := base64.URLEncoding.EncodeToString(kh[:])
			uh := sha256.Sum256(append(append([]byte(nil), cert.RawSubject...), cert.RawSubjectPublicKeyInfo...))
			if e["pubKeyHash"] != id || e["uniqueID"] != base64.URLEncoding.EncodeToString(uh[:]) {
				c.viol("list-ids", fmt.Sprintf("an entry of the enrolled list has identifiers of something else: %v", e), rp, nil)
			}
			if e["subject"] != cert.Subject.String() {
				c.viol("list-subject", fmt.Sprintf("an entry of the enrolled list has another subject: %v, not %s", e["subject"], cert.Subject), rp, nil)
			}
			if e["usesPartitionedCrls"] != w.part[id] {
				c.viol("list-partitioned", fmt.Sprintf("an entry of the enrolled list has usesPartitionedCrls=%v, the report says %v", e["usesPartitionedCrls"], w.part[id]), rp, map[string]any{"issuer": id})
			}
			if !left[id+string(blk.Bytes)] {
				c.viol("list-extra", fmt.Sprintf("the enrolled list has a certificate of %s twice, or one that is not enrolled", id), rp, map[string]any{"list": string(b)})
			}
			delete(left, id+string(blk.Bytes))
		}
		if len(left) > 0 {
			c.viol("list-missing", fmt.Sprintf("%d of %d certificates are missing from the enrolled list", len(left), n), rp, map[string]any{"list": string(b)})
			return nil
		}
		again := rootprogram.NewMozillaIssuers()
		if err := again.LoadEnrolledIssuers(p); err != nil {
			c.viol("reload", fmt.Sprintf("the enrolled list cannot be loaded: %v", err), rp, map[string]any{"list": string(b)})
			return nil
		}
		if !c.judge(again, rp, false) {
			return nil
		}
		for id := range w.certs {
			is := types.NewIssuerFromString(id)
			s, err := again.GetSubjectForIssuer(is)
			ok := false
			for d := range w.certs[id] {
				cert, _ := ctx509.ParseCertificate([]byte(d))
				ok = ok || cert != nil && cert.Subject.String() == s
			}
			if err != nil || !ok {
				c.viol("reload-subject", fmt.Sprintf("issuer %s has subject %q after reloading (%v)", id, s, err), rp, nil)
			}
		}
		return again
	}
}

// malformed reports are rejected as a whole.
func (c *c15case) malformed(r *rand.Rand, dir string, rp *report) {
	b := append([]byte(nil), rp.csv...)
	what := ""
	switch r.Intn(7) {
	case 0:
		what, b = "an empty file", nil
	case 1:
		what, b = "an HTML page", []byte("<!DOCTYPE html><html><body>Service unavailable, \"sorry\"</body></html>\n")
	case 2:
		col := pickS(r, "X.509_Certificate_PEM", "RecordType.Name", "Revocation_Status__c", "Full_CRL_Issued_By_This_CA", "JSON_Array_of_Partitioned_CRLs")
		what, b = "no column "+col, bytes.Replace(b, []byte(col), []byte("Other_Column"), 1)
	case 3: // cut inside a quoted field
		i := bytes.LastIndex(b, []byte("-----END CERTIFICATE"))
		what, b = "a file cut inside a field", b[:i]
	case 4:
		what, b = "a row with too few fields", append(b, []byte("a,b\n")...)
	case 5:
		what, b = "a row with a stray quote", append(b, []byte("a,b\"c\",d,e,f,g,h\n")...)
	case 6:
		what, b = "a row with too many fields", append(b, []byte("a,b,c,d,e,f,g,h,i\n")...)
	}
	p := filepath.Join(dir, "bad.csv")
	os.WriteFile(p, b, 0644)
	mi := rootprogram.NewMozillaIssuers()
	c.run.Eval(c.name + what)
	err := mi.LoadFromDisk(p)
	if err == nil {
		c.viol("accepted", "a malformed report was accepted: "+what, rp, nil)
	}
	if len(mi.GetIssuers()) > 0 || len(mi.CrlMap) > 0 {
		c.viol("accepted-part", "part of a malformed report was used: "+what, rp, map[string]any{"error": fmt.Sprint(err)})
	}
	c.run.Count("malformed reports", 1)
	// the enrolled list, damaged
	if c.tool {
		q := filepath.Join(dir, "badprog.json")
		res := proc.Run(filepath.Join(os.Getenv("VH_BIN"), "get-mozilla-issuers"), []string{"-ccadb", p, "-out", q}, proc.BaseEnv(dir), dir, 60*time.Second)
		if _, err := os.Stat(q); err == nil || res.Code == 0 || res.TimedOut {
			c.viol("program-accepted", fmt.Sprintf("get-mozilla-issuers accepted a malformed report: %s: %v", what, res), rp, nil)
		}
		c.run.Count("malformed reports given to get-mozilla-issuers", 1)
	}
	e := filepath.Join(dir, "enrolled.json")
	l, _ := os.ReadFile(e)
	if len(l) > 10 {
		os.WriteFile(e, l[:1+r.Intn(len(l)-3)], 0644)
		if err := rootprogram.NewMozillaIssuers().LoadEnrolledIssuers(e); err == nil {
			c.viol("list-accepted", "a truncated enrolled list was accepted", rp, nil)
		}
		var es []map[string]any
		json.Unmarshal(l, &es)
		if k := r.Intn(len(es) + 1); k < len(es) {
			pm := es[k]["pem"].(string)
			i := len(pm) / 2
			bad := map[string]string{"empty": "", "cut": pm[:i], "not base64": pm[:i] + "*" + pm[i+1:], "not a certificate": "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"}
			for what, text := range bad {
				es[k]["pem"] = text
				b, _ := json.Marshal(es)
				os.WriteFile(e, b, 0644)
				if err := rootprogram.NewMozillaIssuers().LoadEnrolledIssuers(e); err == nil {
					c.viol("list-entry-accepted", fmt.Sprintf("an enrolled list was accepted although the certificate of entry %d of %d is damaged: %s", k, len(es), what), rp, nil)
				}
				c.run.Count("damaged enrolled lists", 1)
			}
		}
	}
}

// c15History runs loads of a report that the server changes, each by a new
// process as it were, through failures.
func c15History(run *mon.Run, r *rand.Rand, i int) {
	dir, err := os.MkdirTemp(run.Scratch, "c15h")
	if err != nil {
		mon.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	srv := crlw.NewServer()
	defer srv.Close()
	url := srv.URL("/report")
	disk := filepath.Join(dir, "report.csv")
	var reports []*report
	var local *report // a valid report that is on disk
	var localAge time.Duration
	var hist []string
	cur := c15report(r)
	reports = append(reports, cur)
	if r.Intn(3) == 0 {
		local = c15report(r)
		reports = append(reports, local)
		localAge = time.Duration(r.Intn(24)) * time.Hour
		if localAge == 12*time.Hour || localAge == 11*time.Hour {
			localAge = 13 * time.Hour
		}
		os.WriteFile(disk, local.csv, 0644)
		t := time.Now().Add(-localAge)
		os.Chtimes(disk, t, t)
		hist = append(hist, fmt.Sprintf("a valid report of %s ago is on disk", localAge))
	} else if r.Intn(4) == 0 {
		os.WriteFile(disk, []byte("garbage"), 0644)
		hist = append(hist, "garbage is on disk")
	}
	for step := 0; step < 2+r.Intn(4); step++ {
		if r.Intn(3) == 0 {
			cur = c15report(r)
			reports = append(reports, cur)
		}
		ok := true
		var plan []*crlw.Resp
		good := &crlw.Resp{Kind: "ok", Body: cur.csv, NoRange: r.Intn(2) == 0, Chunked: r.Intn(4) == 0, NoHead: r.Intn(4) == 0}
		if r.Intn(3) == 0 {
			good.LastMod = time.Now().Add(-time.Duration(r.Intn(30)) * time.Hour).Truncate(time.Second)
		}
		fail := func() *crlw.Resp {
			f := &crlw.Resp{Body: cur.csv, LastMod: good.LastMod}
			rows := bytes.Split(cur.csv, []byte("-----END CERTIFICATE-----"))
			f.Cut = r.Intn(len(cur.csv))
			if r.Intn(2) == 0 && len(rows) > 2 { // between two rows
				k := 1 + r.Intn(len(rows)-2)
				pos := 0
				for _, x := range rows[:k] {
					pos += len(x) + len("-----END CERTIFICATE-----")
				}
				if j := rowEnd(cur.csv, pos); j > 0 && j < len(cur.csv) {
					f.Cut = j
				}
			}
			switch r.Intn(5) {
			case 0:
				f.Kind, f.Code, f.Body = "status", []int{404, 500, 503, 403}[r.Intn(4)], []byte("<html>error</html>")
			case 1:
				f.Kind = "refuse"
			case 2:
				f.Kind, f.Chunked = "trunc", true
			case 3:
				f.Kind = "reset"
			default:
				f.Kind = "trunc"
			}
			return f
		}
		desc := "the server works"
		switch k := r.Intn(6); {
		case k == 0: // transient
			for j := 0; j < 1+r.Intn(3); j++ {
				plan = append(plan, fail())
			}
			plan = append(plan, good)
			desc = fmt.Sprintf("the server works after %d failures (%s)", len(plan)-1, plan[0].Kind)
		case k == 1 || k == 2:
			f := fail()
			plan = append(plan, f)
			desc = fmt.Sprintf("the server fails: %s, cut at %d of %d", f.Kind, f.Cut, len(cur.csv))
			ok = false
		case k == 3: // a complete answer that is not a report
			bad := *good
			bad.Body = [][]byte{[]byte("<html>maintenance</html>"), nil, cur.csv[:rowCut(r, cur.csv)], bytes.Replace(cur.csv, []byte("RecordType.Name"), []byte("RecordType"), 1)}[r.Intn(4)]
			plan = append(plan, &bad)
			desc = fmt.Sprintf("the server has an invalid report of %d bytes", len(bad.Body))
			ok = false
		default:
			plan = append(plan, good)
		}
		srv.Plan(url, plan...)
		hist = append(hist, desc)
		mi := rootprogram.NewMozillaIssuers()
		mi.DiskPath, mi.ReportUrl = disk, url
		err := mi.Load()
		hist = append(hist, fmt.Sprintf("load: %v", err))
		run.Eval(fmt.Sprintf("history %d step %d", i, step))
		c := &c15case{run: run, name: fmt.Sprintf("history %d step %d", i, step)}
		more := map[string]any{"history": hist}
		want := cur
		switch {
		case local != nil && localAge < 12*time.Hour:
			want = local
			run.Count("loads from disk", 1)
			if err != nil {
				c.viol("fresh-rejected", fmt.Sprintf("a fresh valid report on disk was not used: %v", err), local, more)
				return
			}
		case ok:
			run.Count("loads by fetching", 1)
			if err != nil {
				c.viol("fetch-rejected", fmt.Sprintf("a report that could be fetched was not used: %v", err), cur, more)
				return
			}
			local = cur
			localAge = 0
			if !good.LastMod.IsZero() {
				localAge = time.Since(good.LastMod)
			}
			if localAge > 11*time.Hour && localAge < 13*time.Hour {
				return
			}
		default:
			run.Count("loads that cannot work", 1)
			if err == nil {
				c.viol("remains", fmt.Sprintf("a load succeeded although no fresh report was on disk and none could be fetched; it has %d issuers", len(mi.GetIssuers())), cur, more)
				return
			}
			continue
		}
		if !c.judge(mi, want, true) {
			return
		}
		// time passes
		if r.Intn(2) == 0 {
			d := time.Duration(r.Intn(20)) * time.Hour
			localAge += d
			if localAge > 11*time.Hour && localAge < 13*time.Hour {
				d, localAge = d+2*time.Hour, localAge+2*time.Hour
			}
			if st, err := os.Stat(disk); err == nil {
				t := st.ModTime().Add(-d)
				os.Chtimes(disk, t, t)
			}
			hist = append(hist, fmt.Sprintf("%s pass", d))
		}
	}
}

// rowEnd finds the first line break outside quotes after pos.
func rowEnd(b []byte, pos int) int {
	q := false
	for i, c := range b {
		if c == '"' {
			q = !q
		}
		if c == '\n' && !q && i >= pos {
			return i + 1
		}
	}
	return -1
}

// rowCut is a position inside a quoted field.
func rowCut(r *rand.Rand, b []byte) int {
	i := bytes.LastIndex(b, []byte("-----BEGIN CERTIFICATE"))
	return i + 10 + r.Intn(40)
}

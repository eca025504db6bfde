package ctsrv

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"time"

	"vharness/lib/der"
)

// Entry is a log entry with the identity it must be recorded under.
type Entry struct {
	TS         uint64
	Precert    bool
	Cert       []byte   // certificate (or precertificate) DER
	TBS        []byte   // precert: TBSCertificate without poison
	IssuerHash [32]byte // precert: issuer_key_hash
	Chain      [][]byte // chain DERs

	// Ground truth.
	Eligible bool   // must be recorded
	IssuerID string // expected issuer
	Serial   string // expected serial, hex
	Hour     string // expected expiry bin, UTC 2006-01-02-15
	Note     string

	RawLeaf  []byte // replaces the RFC 6962 leaf
	RawExtra []byte // replaces the extra data
}

func u24(n int) []byte { return []byte{byte(n >> 16), byte(n >> 8), byte(n)} }

// LeafInput is the RFC 6962 MerkleTreeLeaf.
func (e *Entry) LeafInput(ext []byte) []byte {
	b := []byte{0, 0}
	b = binary.BigEndian.AppendUint64(b, e.TS)
	if e.Precert {
		b = append(b, 0, 1)
		b = append(b, e.IssuerHash[:]...)
		b = append(b, u24(len(e.TBS))...)
		b = append(b, e.TBS...)
	} else {
		b = append(b, 0, 0)
		b = append(b, u24(len(e.Cert))...)
		b = append(b, e.Cert...)
	}
	b = binary.BigEndian.AppendUint16(b, uint16(len(ext)))
	return append(b, ext...)
}

func (e *Entry) leaf() []byte {
	if e.RawLeaf != nil {
		return e.RawLeaf
	}
	return e.LeafInput(nil)
}

// ExtraData is the get-entries extra_data.
func (e *Entry) ExtraData() []byte {
	if e.RawExtra != nil {
		return e.RawExtra
	}
	var chain []byte
	for _, c := range e.Chain {
		chain = append(chain, u24(len(c))...)
		chain = append(chain, c...)
	}
	var b []byte
	if e.Precert {
		b = append(b, u24(len(e.Cert))...)
		b = append(b, e.Cert...)
	}
	b = append(b, u24(len(chain))...)
	return append(b, chain...)
}

// TileLeaf is the static-ct-api TileLeaf.
func (e *Entry) TileLeaf(index int64) []byte {
	b := binary.BigEndian.AppendUint64(nil, e.TS)
	ext := TileExt(index)
	cert := e.Cert
	if e.Precert {
		b = append(b, 0, 1)
		b = append(b, e.IssuerHash[:]...)
		cert = e.TBS
	} else {
		b = append(b, 0, 0)
	}
	b = append(b, u24(len(cert))...)
	b = append(b, cert...)
	b = binary.BigEndian.AppendUint16(b, uint16(len(ext)))
	b = append(b, ext...)
	if e.Precert {
		b = append(b, u24(len(e.Cert))...)
		b = append(b, e.Cert...)
	}
	b = binary.BigEndian.AppendUint16(b, uint16(32*len(e.Chain)))
	for _, c := range e.Chain {
		h := sha256.Sum256(c)
		b = append(b, h[:]...)
	}
	return b
}

// TileExt is the leaf_index extension.
func TileExt(index int64) []byte {
	return []byte{0, 0, 5, byte(index >> 32), byte(index >> 24), byte(index >> 16), byte(index >> 8), byte(index)}
}

// CA is an issuing CA of the fake ecosystem.
type CA struct {
	Key       *der.Key
	Name      []byte
	DER       []byte
	PreKey    *der.Key // precertificate signing certificate, issued by this CA
	PreDER    []byte
	PreDERs   [][]byte // the same certificate in several shapes
	PreName   []byte
	RootDER   []byte
	CertCache []byte
}

// World creates entries with unique serials.
type World struct {
	CAs  []*CA
	Leaf *der.Key
	Base time.Time // start of a UTC hour, now
	R    *rand.Rand
	n    uint64
	// Mut, when set, changes the certificate before it is encoded.
	Mut func(c *der.Cert)
	// Expiries are the NotAfter times in use.
	Expiries []time.Time
}

func NewWorld(r *rand.Rand, nCA int) *World {
	w := &World{R: r, Leaf: der.NewKey(), Base: time.Now().UTC().Truncate(time.Hour)}
	root := der.NewKey()
	far := w.Base.Add(20 * 365 * 24 * time.Hour)
	rootName := der.NameO("Verif", "Root")
	rootDER := der.CACert(root, rootName, rootName, nil, far)
	for i := 0; i < nCA; i++ {
		ca := &CA{Key: der.NewKey(), PreKey: der.NewKey(), Name: der.NameO("Verif", fmt.Sprintf("CA %d", i)), PreName: der.NameO("Verif", fmt.Sprintf("Pre %d", i)), RootDER: rootDER}
		w.CAs = append(w.CAs, ca)
		w.Rebuild(i)
	}
	for _, d := range []int{2, 3, 10, 11, 100, 398} {
		w.Expiries = append(w.Expiries, w.Base.Add(time.Duration(d)*24*time.Hour+time.Duration(r.Intn(24))*time.Hour+time.Duration(r.Intn(3600))*time.Second))
	}
	return w
}

type Kind int

const (
	X509 Kind = iota
	Precert
	PrecertPreIssuer
	Expired
	SelfSigned
	ExpiredPrecert
	X509PreIssuer // final certificate whose first chain element is a pre-issuer
	NKinds
)

// UniqueSerial returns serial content octets no other entry of this world has.
func (w *World) UniqueSerial() []byte {
	w.n++
	b := binary.BigEndian.AppendUint64([]byte{0x4d}, w.n)
	extra := make([]byte, w.R.Intn(8))
	w.R.Read(extra)
	return append(b, extra...)
}

func HourOf(t time.Time) string { return t.UTC().Format("2006-01-02-15") }

// New makes an entry of the kind with the given timestamp.
func (w *World) New(k Kind, ts uint64) *Entry {
	ca := w.CAs[w.R.Intn(len(w.CAs))]
	exp := w.Expiries[w.R.Intn(len(w.Expiries))]
	return w.Make(k, ts, ca, w.UniqueSerial(), exp, der.Time(exp))
}

// RandomKind is mostly ordinary entries with some of every other kind.
func (w *World) RandomKind() Kind {
	switch w.R.Intn(12) {
	case 0:
		return PrecertPreIssuer
	case 1:
		return Expired
	case 2:
		return SelfSigned
	case 3:
		return ExpiredPrecert
	case 4, 5, 6, 7:
		return Precert
	}
	return X509
}

// Make builds an entry with a chosen serial and encoded expiry.
func (w *World) Make(k Kind, ts uint64, ca *CA, serial []byte, exp time.Time, expDER []byte) *Entry {
	e := &Entry{TS: ts, Eligible: true, IssuerID: ca.Key.ID(), Serial: hex.EncodeToString(serial), Hour: HourOf(exp)}
	if k == Expired || k == ExpiredPrecert {
		exp = w.Base.Add(-time.Duration(48+w.R.Intn(2000)) * time.Hour)
		expDER = der.Time(exp)
		e.Eligible = false
		e.Hour = HourOf(exp)
		e.Note = "expired"
	}
	c := der.Cert{Serial: serial, Issuer: ca.Name, Subject: der.Name("leaf"), NotBefore: der.Time(w.Base.Add(-5000 * time.Hour)),
		NotAfter: expDER, SPKI: w.Leaf.SPKI, Exts: [][]byte{der.EKUServer()}}
	e.IssuerHash = sha256.Sum256(ca.Key.SPKI)
	if w.Mut != nil {
		w.Mut(&c)
	}
	pre := ca.PreDERs[w.R.Intn(len(ca.PreDERs))]
	switch k {
	case X509, Expired:
		e.Cert = c.DER()
		e.Chain = [][]byte{ca.DER, ca.RootDER}
	case X509PreIssuer:
		e.Cert = c.DER()
		e.Chain = [][]byte{pre, ca.DER, ca.RootDER}
	case Precert, ExpiredPrecert:
		e.Precert = true
		e.TBS = c.TBS()
		c.Exts = append(c.Exts, der.Poison())
		e.Cert = c.DER()
		e.Chain = [][]byte{ca.DER, ca.RootDER}
	case PrecertPreIssuer:
		e.Precert = true
		e.TBS = c.TBS()
		c.Issuer = ca.PreName
		c.Exts = append(c.Exts, der.Poison())
		e.Cert = c.DER()
		e.Chain = [][]byte{pre, ca.DER, ca.RootDER}
	case SelfSigned:
		c.Subject = ca.Name
		e.Cert = c.DER()
		e.Chain = nil
		e.Eligible = false
		e.Note = "no issuer"
	}
	return e
}

func (e *Entry) Describe() map[string]any {
	return map[string]any{"ts": e.TS, "precert": e.Precert, "eligible": e.Eligible, "issuer": e.IssuerID, "serial": e.Serial, "hour": e.Hour, "note": e.Note,
		"cert": base64.StdEncoding.EncodeToString(e.Cert)}
}

// Rebuild re-creates a CA's certificates after its key was replaced.
func (w *World) Rebuild(i int) {
	ca := w.CAs[i]
	far := w.Base.Add(20 * 365 * 24 * time.Hour)
	ca.DER = der.CACert(ca.Key, ca.Name, der.NameO("Verif", "Root"), nil, far)
	pre := func(exts ...[]byte) []byte {
		return der.CACert(ca.PreKey, ca.PreName, ca.Name, nil, far, exts...)
	}
	ct, server, odd := der.OIDPreIssuer, der.OIDServerAuth, der.OID(1, 2, 3, 4)
	ca.PreDER = pre(der.EKUPreIssuer())
	ca.PreDERs = [][]byte{ca.PreDER, ca.PreDER,
		pre(der.EKU(ct, server)), pre(der.EKU(server, ct)), pre(der.EKU(odd, server, ct)),
		// Not every parser reads these two.
		pre(der.EKU(ct), der.BadURI), pre(der.EKU(odd, ct), der.BadURI),
	}
}

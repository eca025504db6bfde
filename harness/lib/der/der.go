// Package der builds certificates and CRLs byte by byte, so that shapes the
// standard library refuses to create can be produced.
package der

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/pem"
	"time"
)

func Len(n int) []byte {
	switch {
	case n < 0x80:
		return []byte{byte(n)}
	case n < 0x100:
		return []byte{0x81, byte(n)}
	case n < 0x10000:
		return []byte{0x82, byte(n >> 8), byte(n)}
	default:
		return []byte{0x83, byte(n >> 16), byte(n >> 8), byte(n)}
	}
}

func TLV(tag byte, parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := append([]byte{tag}, Len(n)...)
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func Seq(parts ...[]byte) []byte { return TLV(0x30, parts...) }
func Set(parts ...[]byte) []byte { return TLV(0x31, parts...) }
func Int(raw []byte) []byte      { return TLV(0x02, raw) }
func Bool(b bool) []byte {
	if b {
		return TLV(0x01, []byte{0xff})
	}
	return TLV(0x01, []byte{0})
}
func Octets(b ...[]byte) []byte { return TLV(0x04, b...) }
func Bits(b []byte) []byte      { return TLV(0x03, []byte{0}, b) }

func OID(ids ...int) []byte {
	b := []byte{byte(ids[0]*40 + ids[1])}
	for _, v := range ids[2:] {
		var t []byte
		t = append(t, byte(v&0x7f))
		for v >>= 7; v > 0; v >>= 7 {
			t = append([]byte{byte(v&0x7f) | 0x80}, t...)
		}
		b = append(b, t...)
	}
	return TLV(0x06, b)
}

func Name(cn string) []byte {
	return Seq(Set(Seq(OID(2, 5, 4, 3), TLV(0x0c, []byte(cn)))))
}

// NameO is a name with an organisation and a common name.
func NameO(o, cn string) []byte {
	return Seq(Set(Seq(OID(2, 5, 4, 10), TLV(0x0c, []byte(o)))), Set(Seq(OID(2, 5, 4, 3), TLV(0x0c, []byte(cn)))))
}

func UTCTime(t time.Time) []byte { return TLV(0x17, []byte(t.UTC().Format("060102150405Z"))) }
func GenTime(t time.Time) []byte { return TLV(0x18, []byte(t.UTC().Format("20060102150405Z"))) }
func Time(t time.Time) []byte {
	if t.UTC().Year() < 2050 {
		return UTCTime(t)
	}
	return GenTime(t)
}

// RawUTC and RawGen encode a time given as text, e.g. with a zone offset.
func RawUTC(s string) []byte { return TLV(0x17, []byte(s)) }
func RawGen(s string) []byte { return TLV(0x18, []byte(s)) }

func Ext(critical bool, value []byte, oid ...int) []byte {
	if critical {
		return Seq(OID(oid...), Bool(true), Octets(value))
	}
	return Seq(OID(oid...), Octets(value))
}

type Key struct {
	Priv crypto.Signer
	SPKI []byte
}

func NewKey() *Key {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	spki, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
	if err != nil {
		panic(err)
	}
	return &Key{k, spki}
}

func NewRSAKey(bits int) *Key {
	k, err := rsa.GenerateKey(rand.Reader, bits)
	if err != nil {
		panic(err)
	}
	spki, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
	if err != nil {
		panic(err)
	}
	return &Key{k, spki}
}

// ID is the identifier the system uses for an issuer: URL-safe base64 of the
// SHA-256 of its public key info.
func (k *Key) ID() string {
	h := sha256.Sum256(k.SPKI)
	return base64.URLEncoding.EncodeToString(h[:])
}

func (k *Key) Sign(tbs []byte) (alg, sig []byte) {
	h := sha256.Sum256(tbs)
	s, err := k.Priv.Sign(rand.Reader, h[:], crypto.SHA256)
	if err != nil {
		panic(err)
	}
	return k.Alg(), s
}

func (k *Key) Alg() []byte {
	if _, ok := k.Priv.(*rsa.PrivateKey); ok {
		return Seq(OID(1, 2, 840, 113549, 1, 1, 11), TLV(0x05))
	}
	return AlgECDSA
}

var AlgECDSA = Seq(OID(1, 2, 840, 10045, 4, 3, 2))

type Cert struct {
	V1        bool
	Serial    []byte // content octets of the INTEGER
	Issuer    []byte // encoded Name
	Subject   []byte
	NotBefore []byte // encoded times
	NotAfter  []byte
	SPKI      []byte
	Exts      [][]byte
	Signer    *Key // nil: a dummy signature
}

var dummySig = Seq(Int([]byte{1}), Int([]byte{1}))

func (c *Cert) TBS() []byte {
	var parts [][]byte
	if !c.V1 {
		parts = append(parts, TLV(0xa0, Int([]byte{2})))
	}
	alg := AlgECDSA
	if c.Signer != nil {
		alg = c.Signer.Alg()
	}
	parts = append(parts, Int(c.Serial), alg, c.Issuer, Seq(c.NotBefore, c.NotAfter), c.Subject, c.SPKI)
	if len(c.Exts) > 0 && !c.V1 {
		parts = append(parts, TLV(0xa3, Seq(c.Exts...)))
	}
	return Seq(parts...)
}

func (c *Cert) DER() []byte {
	tbs := c.TBS()
	if c.Signer != nil {
		alg, sig := c.Signer.Sign(tbs)
		return Seq(tbs, alg, Bits(sig))
	}
	return Seq(tbs, AlgECDSA, Bits(dummySig))
}

func Poison() []byte { return Ext(true, []byte{5, 0}, 1, 3, 6, 1, 4, 1, 11129, 2, 4, 3) }

var (
	OIDPreIssuer  = OID(1, 3, 6, 1, 4, 1, 11129, 2, 4, 4)
	OIDServerAuth = OID(1, 3, 6, 1, 5, 5, 7, 3, 1)
	// BadURI is a subjectAltName that ct-go refuses and zcrypto reads.
	BadURI = Ext(false, Seq(TLV(0x86, []byte("::bad"))), 2, 5, 29, 17)
)

func EKU(oids ...[]byte) []byte { return Ext(false, Seq(oids...), 2, 5, 29, 37) }
func EKUPreIssuer() []byte      { return EKU(OIDPreIssuer) }
func EKUServer() []byte         { return EKU(OIDServerAuth) }
func BasicConstraints() []byte  { return Ext(true, Seq(Bool(true)), 2, 5, 29, 19) }
func KeyUsage(bits byte, unused byte) []byte {
	return Ext(true, TLV(0x03, []byte{unused, bits}), 2, 5, 29, 15)
}

// CACert makes a (self-issued looking) CA certificate for a key.
func CACert(k *Key, subject, issuer []byte, signer *Key, notAfter time.Time, extra ...[]byte) []byte {
	c := Cert{Serial: []byte{0x11}, Issuer: issuer, Subject: subject,
		NotBefore: Time(time.Now().Add(-1000 * time.Hour)), NotAfter: Time(notAfter), SPKI: k.SPKI,
		Exts: append([][]byte{BasicConstraints(), KeyUsage(0x06, 1)}, extra...), Signer: signer}
	return c.DER()
}

func PEM(der []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
}

// Revoked is one CRL entry.
type Revoked struct {
	Serial []byte
	Reason int // <0: no extension
	Exts   [][]byte
	Time   time.Time
}

type CRL struct {
	V1         bool
	Issuer     []byte
	This, Next time.Time
	NoNext     bool
	Entries    []Revoked
	Exts       [][]byte
	RawEntries []byte // overrides Entries when non-nil (content of revokedCertificates)
}

func (c *CRL) TBS(alg []byte) []byte {
	var parts [][]byte
	if !c.V1 {
		parts = append(parts, Int([]byte{1}))
	}
	parts = append(parts, alg, c.Issuer, Time(c.This))
	if !c.NoNext {
		parts = append(parts, Time(c.Next))
	}
	if c.RawEntries != nil {
		parts = append(parts, Seq(c.RawEntries))
	} else if len(c.Entries) > 0 {
		var es [][]byte
		for _, e := range c.Entries {
			ep := [][]byte{Int(e.Serial), Time(e.Time)}
			exts := e.Exts
			if e.Reason >= 0 {
				exts = append([][]byte{Ext(false, TLV(0x0a, []byte{byte(e.Reason)}), 2, 5, 29, 21)}, exts...)
			}
			if len(exts) > 0 {
				ep = append(ep, Seq(exts...))
			}
			es = append(es, Seq(ep...))
		}
		parts = append(parts, Seq(es...))
	}
	if len(c.Exts) > 0 && !c.V1 {
		parts = append(parts, TLV(0xa0, Seq(c.Exts...)))
	}
	return Seq(parts...)
}

func (c *CRL) Sign(k *Key) []byte {
	alg := k.Alg()
	tbs := c.TBS(alg)
	_, sig := k.Sign(tbs)
	return Seq(tbs, alg, Bits(sig))
}

func CRLNumber(n byte) []byte { return Ext(false, Int([]byte{n}), 2, 5, 29, 20) }

// IDP makes an issuing distribution point extension naming the URLs.
func IDP(urls ...string) []byte {
	var gns [][]byte
	for _, u := range urls {
		gns = append(gns, TLV(0x86, []byte(u)))
	}
	return Ext(true, Seq(TLV(0xa0, TLV(0xa0, gns...))), 2, 5, 29, 28)
}

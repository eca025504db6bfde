package main

import (
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"vharness/lib/der"
	"vharness/lib/mon"
)

func base64std(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// splice puts the signature of one CRL on another.
func splice(a, b []byte) []byte {
	ta, ra := tlv(inner(a))
	_, rb := tlv(inner(b))
	_ = ra
	return seq(ta, rb)
}

func inner(b []byte) []byte { h, _ := hdr(b); return b[h:] }
func hdr(b []byte) (int, int) {
	if b[1] < 0x80 {
		return 2, int(b[1])
	}
	n := int(b[1] & 0x7f)
	l := 0
	for i := 0; i < n; i++ {
		l = l<<8 | int(b[2+i])
	}
	return 2 + n, l
}
func tlv(b []byte) (first, rest []byte) {
	h, l := hdr(b)
	return b[:h+l], b[h+l:]
}

func agg(run *mon.Run, worlds, rounds int, intr bool) {
	mon.Par(10, worlds, func(i int) {
		r := run.Rand("agg", i)
		w := newAgg(run, r, fmt.Sprintf("world %d", i))
		defer w.close()
		if i%20 == 3 {
			w.huge = 65530 + r.Intn(2)*65536 + r.Intn(5000)
		}
		for k := 0; k < rounds; k++ {
			if run.Violations() > 10 {
				return
			}
			if intr && r.Intn(3) == 0 {
				w.interrupt(i)
			}
			if r.Intn(5) == 0 {
				w.corrupt()
			}
			w.complete(fmt.Sprintf("world %d round %d", i, k))
		}
	})
}

// corrupt damages a CRL on disk: it is no longer a valid one.
func (w *aggWorld) corrupt() {
	for _, is := range w.issuers {
		for _, s := range is.sites {
			if s.disk == nil || !is.enrolled || w.r.Intn(3) > 0 || len(s.disk.body) < 10 {
				continue
			}
			for n, b := range w.files(is.ca.ID()) {
				if string(b) == string(s.disk.body) {
					p := filepath.Join(w.crlpath, is.ca.ID(), n)
					c := append([]byte(nil), b...)
					switch w.r.Intn(5) {
					case 3: // a whole CRL, of another key
						crl, _ := w.crl(s, strangers(), 1+w.r.Intn(5))
						if w.r.Intn(2) == 0 {
							crl.Next = crl.This.Add(-time.Hour)
							crl.NoNext = false
						}
						c = crl.Sign(strangers())
					case 4: // its own, expired, with the signature of another
						crl, _ := w.crl(s, s.iss.ca.Key, 1+w.r.Intn(5))
						_, q := w.crl(s, s.iss.ca.Key, 1)
						crl.Next = crl.This.Add(time.Minute)
						crl.NoNext = false
						crl.This = crl.This.Add(-200 * time.Hour)
						c = splice(crl.Sign(s.iss.ca.Key), q.body)
					case 0:
						c = c[:w.r.Intn(len(c)/2)]
					case 1:
						c[len(c)/2] ^= 4
					default:
						c = []byte{}
					}
					os.WriteFile(p, c, 0644)
					s.disk = nil
					s.stale = c
					break
				}
			}
		}
	}
}

func c11(run *mon.Run) {
	run.Level = "fault_enumeration"
	run.Rule = "a world's URL and round whose files, lists and audit entries were compared with what the servers handed out"
	agg(run, run.Pick(160, 1500), run.Pick(4, 8), true)
}

func c12(run *mon.Run) {
	run.Level = "fault_enumeration"
	run.Rule = "an issuer's list in a completed run, or an interrupted run"
	agg(run, run.Pick(160, 1500), run.Pick(4, 8), true)
}

func c19(run *mon.Run) {
	run.Rule = "an audit fact (kind, truth, history of the URL) compared with what happened"
	agg(run, run.Pick(160, 1500), run.Pick(4, 8), false)
}
func seq(ps ...[]byte) []byte { return der.Seq(ps...) }

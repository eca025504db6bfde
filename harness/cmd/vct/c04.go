package main

import (
	"encoding/hex"
	"fmt"
	"time"

	"vharness/lib/ctsrv"
	"vharness/lib/der"
	"vharness/lib/mon"
)

// serial shapes: content octets of the INTEGER. n makes them unique.
func (e *Env) serialShape() ([]byte, string) {
	u := e.w.UniqueSerial() // 9..16 octets starting 0x4d
	r := e.r
	switch r.Intn(9) {
	case 7:
		b := make([]byte, 20)
		r.Read(b)
		copy(b[1:], u)
		return append([]byte{0x00}, append([]byte{0x80 | b[0]}, b[1:]...)...), "20 octets behind a leading zero"
	case 0:
		return append([]byte{0x00, 0x80 | byte(r.Intn(128))}, u...), "positive with leading zero octet"
	case 1:
		return append([]byte{0x80 | byte(r.Intn(127))}, u...), "negative"
	case 2:
		b := make([]byte, 20-len(u)%20)
		r.Read(b)
		b = append(u, b...)
		return b[:20], "20 octets"
	case 3:
		b := make([]byte, 21+r.Intn(60))
		r.Read(b)
		return append(u, b...), "long"
	case 4:
		return append([]byte{0x7f}, u...), "high"
	case 5:
		return append([]byte{0x01, 0x00, 0x00}, u...), "inner zeros"
	case 6:
		return append(u, 0x00, 0x00), "trailing zeros"
	}
	return u, "plain"
}

// oddSerial: shapes that a strict parser may refuse.
func (e *Env) oddSerial(i int) ([]byte, string) {
	u := e.w.UniqueSerial()
	switch i % 5 {
	case 0:
		return append([]byte{0x00, 0x01}, u...), "non-minimal positive"
	case 1:
		return append([]byte{0xff, 0xff}, u...), "non-minimal negative"
	case 2:
		return append([]byte{0x00, 0x00, 0x00}, u...), "several leading zeros"
	case 3:
		return []byte{0x00}, "zero"
	}
	b := make([]byte, 300)
	e.r.Read(b)
	return append(u, b...), "very long"
}

func (e *Env) expiryShape() (time.Time, []byte, string) {
	r := e.r
	t := e.w.Base.Add(time.Duration(24+r.Intn(20000)) * time.Hour)
	switch r.Intn(4) {
	case 0:
		t = t.Add(59*time.Minute + 59*time.Second)
	case 1:
	default:
		t = t.Add(time.Duration(r.Intn(3600)) * time.Second)
	}
	switch r.Intn(6) {
	case 0:
		return t, der.GenTime(t), "GeneralizedTime"
	case 1:
		t = time.Date(2050+r.Intn(7949), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
		return t, der.GenTime(t), "far GeneralizedTime"
	case 2:
		t = time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)
		return t, der.GenTime(t), "no well-defined expiry"
	case 3:
		t = time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC)
		return t, der.UTCTime(t), "last UTCTime"
	}
	return t, der.UTCTime(t), "UTCTime"
}

func (e *Env) oddExpiry(i int) (time.Time, []byte, string) {
	r := e.r
	t := e.w.Base.Add(time.Duration(24*30+r.Intn(8000))*time.Hour + time.Duration(r.Intn(3600))*time.Second)
	off := (r.Intn(25) - 12) * 3600
	if r.Intn(2) == 0 {
		off += []int{1800, 2700, -1800, 60}[r.Intn(4)]
	}
	if i%2 == 0 && off == 0 {
		off = 5*3600 + 1800
	}
	z := time.FixedZone("", off)
	switch i % 5 {
	case 0, 1:
		return t, der.RawUTC(t.In(z).Format("060102150405-0700")), fmt.Sprintf("UTCTime with offset %d", off)
	case 2:
		return t, der.RawGen(t.In(z).Format("20060102150405-0700")), fmt.Sprintf("GeneralizedTime with offset %d", off)
	case 3:
		t = t.Truncate(time.Minute)
		return t, der.RawUTC(t.Format("0601021504Z")), "UTCTime without seconds"
	}
	return t, der.RawGen(t.Format("20060102150405.5Z")), "GeneralizedTime with fraction"
}

var extraExts = [][]byte{
	der.Ext(false, der.Seq(), 1, 2, 3, 4, 5),
	der.Ext(false, der.Seq(der.TLV(0x82, []byte("example.com"))), 2, 5, 29, 17),
	der.Ext(true, der.Seq(der.OID(1, 2, 3)), 1, 3, 6, 1, 4, 1, 99999, 1),
	der.Ext(false, der.Octets([]byte{1, 2, 3, 4}), 2, 5, 29, 14),
	der.Ext(false, der.Seq(der.TLV(0x82, []byte{0xff, 0xfe})), 2, 5, 29, 17), // bad name
	der.Ext(false, der.Seq(der.TLV(0x87, []byte{1, 2, 3})), 2, 5, 29, 17),    // bad address
	der.Ext(false, der.Seq(der.TLV(0xa0, der.TLV(0xa0))), 2, 5, 29, 31),      // odd CRLDP
	der.BadURI,
	der.Ext(true, der.Seq(der.TLV(0x01, []byte{1})), 2, 5, 29, 19), // odd basic constraints
}

func (e *Env) shaped(k ctsrv.Kind, ts uint64) *ctsrv.Entry {
	ca := e.w.CAs[e.r.Intn(len(e.w.CAs))]
	ser, sn := e.serialShape()
	exp, enc, en := e.expiryShape()
	ext := -1
	if e.r.Intn(3) == 0 {
		ext = e.r.Intn(6)
	}
	v1 := k == ctsrv.X509 && e.r.Intn(8) == 0
	e.w.Mut = func(c *der.Cert) {
		c.V1 = v1
		if ext >= 0 {
			c.Exts = append(c.Exts, extraExts[ext])
		}
		if e.r.Intn(5) == 0 {
			c.Subject = der.Seq() // empty name
		}
	}
	x := e.w.Make(k, ts, ca, ser, exp, enc)
	e.w.Mut = nil
	if x.Note == "" {
		x.Note = fmt.Sprintf("serial %s, expiry %s, v1=%v ext=%d kind=%d", sn, en, v1, ext, k)
	}
	e.run.Count("serial "+sn, 1)
	e.run.Count("expiry "+en, 1)
	return x
}

func c04world(run *mon.Run, i int) {
	name := fmt.Sprintf("world%d", i)
	e := NewEnv(run, name, []uint64{64, 128, 37, 512}[i%4])
	defer e.Close()
	e.w.CAs[0].Key = der.NewRSAKey(1024)
	e.w.Rebuild(0)
	// Logs of shapes every parser accepts.
	var first []*ctsrv.Entry
	// A certificate that expires within the hour must be recorded: possible
	// to see only while its bin, the next hour's, has not begun.
	soon := e.w.Base.Add(time.Hour + time.Second)
	if time.Until(soon) < 20*time.Minute {
		soon = soon.Add(time.Hour)
	} else {
		run.Count("worlds with entries about to expire", 1)
	}
	for k := 0; k < 4; k++ {
		l := e.AddLog(k%2 == 1, 3600)
		ts := e.NormalTS(l)
		l.Append(e.w.Make(ctsrv.Kind(k%3), ts(0), e.w.CAs[0], e.w.UniqueSerial(), soon, der.Time(soon)))
		n := 120 + e.r.Intn(200)
		for j := 0; j < n; j++ {
			if e.r.Intn(12) == 0 && len(first) > 0 {
				// The same certificate again: other log or other time.
				x := *first[e.r.Intn(len(first))]
				x.TS = ts(j)
				l.Append(&x)
				e.run.Count("repeated certificates", 1)
				continue
			}
			kind := ctsrv.Kind(e.r.Intn(int(ctsrv.NKinds)))
			x := e.shaped(kind, ts(j))
			first = append(first, x)
			l.Append(x)
		}
		l.PubAll()
	}
	// One odd entry among plain ones: it may stop its log, but if it is
	// recorded it must be under the right identity.
	for k := 0; k < 16; k++ {
		l := e.AddLog(k%2 == 1, 3600)
		l.Done = true
		ts := e.NormalTS(l)
		e.Grow(l, 5, ts)
		ca := e.w.CAs[e.r.Intn(len(e.w.CAs))]
		kind := []ctsrv.Kind{ctsrv.X509, ctsrv.Precert, ctsrv.PrecertPreIssuer, ctsrv.X509PreIssuer}[e.r.Intn(4)]
		var x *ctsrv.Entry
		what := ""
		switch k % 4 {
		case 0:
			s, d := e.oddSerial(e.r.Intn(5))
			t := e.w.Expiries[0]
			x, what = e.w.Make(kind, ts(5), ca, s, t, der.Time(t)), d
		case 1, 2:
			t, enc, d := e.oddExpiry(e.r.Intn(5))
			x, what = e.w.Make(kind, ts(5), ca, e.w.UniqueSerial(), t, enc), d
		case 3:
			n := 4 + e.r.Intn(len(extraExts)-4)
			e.w.Mut = func(c *der.Cert) { c.Exts = append(c.Exts, extraExts[n]) }
			t := e.w.Expiries[1]
			x, what = e.w.Make(kind, ts(5), ca, e.w.UniqueSerial(), t, der.Time(t)), fmt.Sprintf("odd extension %d", n)
			e.w.Mut = nil
		}
		x.Note = what
		l.Append(x)
		e.Grow(l, 5, ts)
		l.PubAll()
		e.run.Count("odd entry "+what[:min(len(what), 24)], 1)
	}
	e.Converge("C04")
	s := e.Observe()
	for _, l := range e.logs {
		for j, x := range l.Entries {
			rec := x.Eligible && has(s, l, x)
			run.Eval(fmt.Sprintf("%s/%s/%d", name, l.Name(), j))
			if rec {
				run.Count("entries recorded", 1)
				if l.Done {
					run.Count("odd-log entries recorded", 1)
				}
			} else if !x.Eligible {
				run.Count("entries rightly not recorded", 1)
			} else if !l.Done {
				run.Violation("identity-missing", fmt.Sprintf("%s: %s entry %d not recorded under its identity: %v", name, l.Name(), j, x.Describe()), e.Detail(l))
			} else if j != 5 {
				run.Count("odd-log entries behind a refused entry", 1)
			} else {
				run.Count("odd entries refused: "+x.Note[:min(len(x.Note), 20)], 1)
			}
		}
		x := l.Entries[len(l.Entries)/2]
		run.Sample(l.Name()[:1], map[string]any{"note": x.Note, "serial": x.Serial, "hour": x.Hour, "issuer": x.IssuerID, "cert": hex.EncodeToString(x.Cert)[:60]})
	}
}

func c04(run *mon.Run) {
	run.Rule = "RFC 6962 and tiled logs filled with certificates of many shapes (serial lengths, signs and leading zeros; UTCTime/GeneralizedTime; v1/v3; RSA and EC issuers; precertificates, precertificate signing certificates, expired and self-issued entries; repeats in other logs) plus logs with one odd entry (non-minimal serials, times with zone offsets, malformed extensions), ingested by the real ct-fetch. Oracle: the cache holds exactly one member per eligible entry with the exact identity, and nothing else; an odd entry is recorded correctly or refused. One evaluation per log entry."
	run.Assume = []string{"a certificate expiring within the current hour is not used (its cache bin has already expired)"}
	n := run.Pick(60, 400)
	mon.Par(8, n, func(i int) {
		if run.Violations() > 10 {
			return
		}
		c04world(run, i)
	})
	mon.Par(4, run.Pick(3, 24), func(i int) { bigWorld(run, i, true) })
}

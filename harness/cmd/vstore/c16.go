package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"

	"vharness/lib/der"
	"vharness/lib/mon"
)

func c16(run *mon.Run) {
	run.Rule = "a case is one value taken through every conversion, or one pool of values checked for collisions; distinct cases differ in the value"
	run.Assume = []string{"SHA-256 has no collisions among the values tried"}
	n := run.Pick(60, 1500)
	mon.Par(8, n, func(i int) { c16Serials(run, run.Rand("serials", i), i) })
	mon.Par(8, n, func(i int) { c16Exp(run, run.Rand("exp", i)) })
	local := time.Local
	for i, z := range c09Locs { // the zone of the process does not matter
		time.Local = z
		c16Exp(run, run.Rand("zone", i))
		run.Count("process time zones", 1)
	}
	time.Local = local
	mon.Par(8, n, func(i int) { c16Issuers(run, run.Rand("iss", i)) })
	mon.Par(8, n, func(i int) { c16Entries(run, run.Rand("ent", i)) })
	mon.Par(8, n, func(i int) { c16Lists(run, run.Rand("lists", i), i) })
	mon.Par(8, n, func(i int) { c16States(run, run.Rand("states", i)) })
}

func rbytes(r *rand.Rand, i int) []byte {
	n := 0
	switch r.Intn(6) {
	case 0:
		n = r.Intn(4)
	case 1:
		n = 16
	case 2:
		n = 20 + r.Intn(2)
	case 3:
		n = r.Intn(80)
	case 4:
		n = 38 + r.Intn(5)
	case 5:
		n = 1 + r.Intn(20)
		if r.Intn(30) == 0 {
			n = 10000 + r.Intn(60000)
		}
	}
	b := make([]byte, n)
	r.Read(b)
	for k := range b {
		switch r.Intn(9) {
		case 0:
			b[k] = 0
		case 1:
			b[k] = "\n\r\"\\ :@,\xff\x80"[r.Intn(10)]
		}
	}
	return b
}

// variants are values that a careless conversion would confuse with b.
func variants(b []byte) [][]byte {
	out := [][]byte{b, append([]byte{0}, b...), append([]byte{0, 0}, b...), append(append([]byte{}, b...), 0), bytes.ToLower(b), bytes.ToUpper(b), bytes.TrimSpace(b), []byte(hex.EncodeToString(b)),
		bytes.TrimLeft(b, "\x00"), bytes.TrimRight(b, "\x00\n"), append([]byte{0xff}, b...), []byte(strings.ToValidUTF8(string(b), "\ufffd"))}
	if len(b) > 1 {
		out = append(out, b[1:], b[:len(b)-1])
	}
	return out
}

func c16Serials(run *mon.Run, r *rand.Rand, i int) {
	v := func(key, f string, a ...any) { run.Violation(key, fmt.Sprintf(f, a...), nil) }
	forms := map[string]map[string]string{} // form -> text -> bytes
	note := func(form, text string, b []byte) {
		if forms[form] == nil {
			forms[form] = map[string]string{}
		}
		if o, ok := forms[form][text]; ok && o != string(b) {
			v("collision", "%s %.100q stands for both %s and %s", form, text, hx(o), hx(string(b)))
		}
		forms[form][text] = string(b)
	}
	same := func(what string, s types.Serial, b []byte) {
		if s.BinaryString() != string(b) {
			v("serial", "%s: %s became %s", what, hx(string(b)), hx(s.BinaryString()))
		}
	}
	var pool [][]byte
	for k := 0; k < 60; k++ {
		pool = append(pool, variants(rbytes(r, k))...)
	}
	var list types.SerialList
	for _, b := range pool {
		s := types.NewSerialFromBytes(append([]byte(nil), b...))
		same("bytes", s, b)
		note("binary", s.BinaryString(), b)
		note("hex", s.HexString(), b)
		note("string", s.String(), b)
		same("hex", types.NewSerialFromHex(s.HexString()), b)
		s2, err := types.NewSerialFromBinaryString(s.BinaryString())
		if err != nil {
			v("serial", "binary string of %s refused: %v", hx(string(b)), err)
		} else {
			same("binary string", s2, b)
		}
		js, err := json.Marshal(s)
		if err != nil {
			v("serial", "json of %s: %v", hx(string(b)), err)
			continue
		}
		note("json", string(js), b)
		var s3 types.Serial
		if err := json.Unmarshal(js, &s3); err != nil {
			v("serial", "json %.100s of %s refused: %v", js, hx(string(b)), err)
		} else {
			same("json", s3, b)
		}
		list = append(list, s)
		run.Eval("serial/" + hx(string(b)))
	}
	js, err := json.Marshal(map[string]any{"a": list})
	if err != nil {
		v("serial", "json of a list: %v", err)
	}
	var back struct{ A []types.Serial }
	if err := json.Unmarshal(js, &back); err != nil || len(back.A) != len(list) {
		v("serial", "json list of %d came back as %d: %v", len(list), len(back.A), err)
	} else {
		for k := range list {
			same("json list", back.A[k], pool[k])
		}
	}
	// dedup
	for k := 0; k < 20; k++ {
		n := r.Intn(30)
		if k == 0 {
			n = r.Intn(3000) // many copies of a few
		}
		want := Set{}
		var l types.SerialList
		src := 1 + r.Intn(len(pool))
		if k == 0 {
			src = 1 + r.Intn(min(3, len(pool)))
		}
		for j := 0; j < n; j++ {
			b := pool[r.Intn(src)]
			want[string(b)] = true
			l = append(l, types.NewSerialFromBytes(b))
		}
		got := Set{}
		out := l.Dedup()
		for _, s := range out {
			if got[s.BinaryString()] {
				v("dedup", "kept %s twice", hx(s.BinaryString()))
			}
			got[s.BinaryString()] = true
		}
		if d := diff(want, got); d != "" {
			v("dedup", "of %d: %s", n, d)
		}
		run.Eval(fmt.Sprintf("dedup/%d/%d", n, len(got)))
	}
	// out of certificates
	for k := 0; k < 20; k++ {
		b := rbytes(r, k)
		if len(b) == 0 {
			b = []byte{7}
		}
		c := der.Cert{Serial: b, Issuer: der.Name("i"), Subject: der.Name("s"), NotBefore: der.UTCTime(time.Now()), NotAfter: der.UTCTime(time.Now().Add(time.Hour)), SPKI: c16Key.SPKI, Signer: c16Key}
		same("certificate", types.NewSerialFromTBS(c.TBS()), b)
	}
	run.Count("serials", len(pool))
}

var c16Key = der.NewKey()

func c16Exp(run *mon.Run, r *rand.Rand) {
	v := func(key, f string, a ...any) { run.Violation(key, fmt.Sprintf(f, a...), nil) }
	ids := map[string]int64{}
	for k := 0; k < 400; k++ {
		var t time.Time
		switch r.Intn(4) {
		case 0:
			t = time.Unix(r.Int63n(4102444800), r.Int63n(1e9))
		case 1:
			t = time.Unix(r.Int63n(253402300799+62135596800-90000*2)-62135596800+90000, r.Int63n(1e9)) // years 1..9999
		case 2:
			t = time.Unix(r.Int63n(4102444800)/3600*3600-r.Int63n(2), 0)
		case 3:
			t = time.Unix(r.Int63n(4102444800)/86400*86400-r.Int63n(2), 0)
		}
		z := c09Locs[r.Intn(len(c09Locs))]
		t = t.In(z)
		// floor to the hour since the epoch
		u := t.Unix()
		h := u - ((u%3600)+3600)%3600
		e := types.NewExpDateFromTime(t)
		want := time.Unix(h, 0).UTC().Format("2006-01-02-15")
		if e.ID() != want || e.String() != want {
			v("expiry", "%s has ID %s, want %s", t, e.ID(), want)
		}
		if e.Unix() != h || e.ExpireTime().Unix() != h {
			v("expiry", "%s has Unix %d, ExpireTime %s, want %d", t, e.Unix(), e.ExpireTime(), h)
		}
		if o, ok := ids[e.ID()]; ok && o != h {
			v("collision", "expiry %s stands for %d and %d", e.ID(), o, h)
		}
		ids[e.ID()] = h
		e2, err := types.NewExpDate(e.ID())
		if err != nil || e2.ID() != e.ID() || e2.Unix() != h || e2.ExpireTime().Unix() != h {
			v("expiry", "ID %s is read back as %s (%d), %v", e.ID(), e2.ID(), e2.Unix(), err)
		}
		day := time.Unix(h, 0).UTC().Format("2006-01-02")
		d := u - ((u%86400)+86400)%86400
		e3, err := types.NewExpDate(day)
		if err != nil || e3.ID() != day || e3.Unix() != d || e3.ExpireTime().Unix() != d {
			v("expiry", "day %s is read back as %s (%d), %v", day, e3.ID(), e3.Unix(), err)
		}
		if k%10 == 0 {
			run.Eval("exp/" + want + z.String())
		}
	}
	for _, bad := range []string{"", "x", "2020-01", "2020-13-01", "2020-02-30", "2020-01-01-24", "2020-01-01-xx", "2020/01/01", "2020-01-01-", "20200101", "2020-01-01-00-00", " 2020-01-01"} {
		if e, err := types.NewExpDate(bad); err == nil {
			v("expiry", "%q accepted as %s", bad, e.ID())
		}
	}
	run.Count("instants", 400)
}

func c16Issuers(run *mon.Run, r *rand.Rand) {
	v := func(key, f string, a ...any) { run.Violation(key, fmt.Sprintf(f, a...), nil) }
	for k := 0; k < 60; k++ {
		b := rbytes(r, k)
		d := sha256.Sum256(b)
		want := base64.URLEncoding.EncodeToString(d[:])
		is := types.NewIssuerFromSPKI(b)
		is2 := types.NewIssuerFromString(want)
		js, err := json.Marshal(&is)
		var is3 types.Issuer
		err2 := json.Unmarshal(js, &is3)
		js4, err4 := json.Marshal(map[string]*types.Issuer{"i": &is2})
		var m map[string]*types.Issuer
		err5 := json.Unmarshal(js4, &m)
		if err != nil || err2 != nil || err4 != nil || err5 != nil {
			v("issuer", "%s: %v %v %v %v", want, err, err2, err4, err5)
			continue
		}
		for form, got := range map[string]string{"spki": is.ID(), "string": is2.ID(), "json": is3.ID(), "json map": m["i"].ID()} {
			if got != want {
				v("issuer", "%s form of %s is %s", form, want, got)
			}
		}
		if strings.ContainsAny(is.ID(), "/:") {
			v("issuer", "%s is not usable in names", is.ID())
		}
		run.Eval("issuer/" + want)
	}
	cert := der.CACert(c16Key, der.Name("ca"), der.Name("ca"), c16Key, time.Now().Add(time.Hour))
	c, err := types.ParseCertificate(cert)
	if err != nil {
		mon.Infra("cert: %v", err)
	}
	is := types.NewIssuerFromCertificate(c)
	if is.ID() != c16Key.ID() {
		v("issuer", "certificate's issuer ID is %s, want %s", is.ID(), c16Key.ID())
	}
	run.Count("issuers", 60)
}

func c16Entries(run *mon.Run, r *rand.Rand) {
	v := func(key, f string, a ...any) { run.Violation(key, fmt.Sprintf(f, a...), nil) }
	type val struct {
		ts uint64
		id [32]byte
		s  string
	}
	seen := map[string]val{}
	var logs []types.CTLogState
	var ids [][32]byte
	for n := 1 + r.Intn(6); n > 0; n-- {
		var id [32]byte
		r.Read(id[:])
		if len(ids) > 0 && r.Intn(3) == 0 { // nearly the same as another
			id = ids[r.Intn(len(ids))]
			id[r.Intn(32)] ^= 1 << r.Intn(8)
		}
		ids = append(ids, id)
		l := types.CTLogState{LogID: base64.StdEncoding.EncodeToString(id[:]), ShortURL: fmt.Sprint("l", n), MMD: uint64(r.Intn(200000)), MinTimestamp: r.Uint64(), LastUpdateTime: time.Unix(r.Int63n(2e9), 0), MaxEntry: r.Uint64(), MinEntry: r.Uint64()}
		switch r.Intn(6) {
		case 0:
			l.MMD = 0
		case 1:
			l.MMD = 86400
		case 2: // more than 32 bits of milliseconds
			l.MMD = 4294967 + uint64(r.Intn(100000000))
		}
		switch r.Intn(4) {
		case 0:
			l.MaxTimestamp = l.MMD*1000 + uint64(r.Intn(3))
			if d := uint64(r.Intn(100000)); r.Intn(2) == 0 && d <= l.MaxTimestamp { // nothing is covered yet
				l.MaxTimestamp -= d
			}
		case 1:
			l.MaxTimestamp = math.MaxUint64 - uint64(r.Intn(3))
		default:
			l.MaxTimestamp = 1600000000000 + uint64(r.Int63n(400000000000))
		}
		logs = append(logs, l)
	}
	if r.Intn(4) == 0 {
		logs = append(logs, types.CTLogState{LogID: []string{"", "short", "!!!", base64.StdEncoding.EncodeToString(make([]byte, 31))}[r.Intn(4)], MaxTimestamp: math.MaxUint64})
	}
	r.Shuffle(len(logs), func(i, j int) { logs[i], logs[j] = logs[j], logs[i] })
	cm := types.NewCoverageCutoffMap(logs)
	for k := 0; k < 200; k++ {
		id := ids[r.Intn(len(ids))]
		if r.Intn(8) == 0 {
			id[r.Intn(32)] ^= 1 << r.Intn(8)
		}
		var mine *types.CTLogState
		for j := range logs {
			if logs[j].LogID == base64.StdEncoding.EncodeToString(id[:]) {
				mine = &logs[j]
			}
		}
		ts := uint64(1 + r.Int63n(2000000000000))
		if mine != nil {
			cut := mine.MaxTimestamp - mine.MMD*1000
			switch r.Intn(6) {
			case 0:
				ts = cut
			case 1:
				ts = cut + 1
			case 2:
				ts = cut - 1
			case 3:
				ts = mine.MaxTimestamp
			case 4:
				ts = r.Uint64()
			}
		}
		if ts == 0 { // the origin of time; what "at or after" means there is moot
			ts = 1
		}
		b := rbytes(r, k)
		exp := types.NewExpDateFromTime(time.Unix(r.Int63n(4e9), 0))
		is := types.NewIssuerFromSPKI(rbytes(r, k))
		key := storage.NewSerialCacheKey(exp, is)
		if key.ID() != "serials::"+exp.ID()+"::"+is.ID() {
			v("cache-key", "%s for %s %s", key.ID(), exp.ID(), is.ID())
		}
		m := key.NewMember(ts, id, types.NewSerialFromBytes(b))
		if m.Key != key.ID() || m.Expiry.Unix() != exp.Unix() {
			v("cache-key", "member of %s has key %s, expiry %s", key.ID(), m.Key, m.Expiry)
		}
		if o, ok := seen[m.Value]; ok && (o.ts != ts || o.id != id || o.s != string(b)) {
			v("collision", "one entry for %v and %v", o, val{ts, id, string(b)})
		}
		seen[m.Value] = val{ts, id, string(b)}
		e := storage.SerialCacheEntry(m.Value)
		s, err := e.AsSerial()
		if err != nil || s.BinaryString() != string(b) {
			v("cache-entry", "serial %s came back as %s %v", hx(string(b)), hx(s.BinaryString()), err)
		}
		want := mine != nil && mine.MaxTimestamp >= mine.MMD*1000 && mine.MaxTimestamp-mine.MMD*1000 >= ts
		if got := e.IsCovered(&cm); got != want {
			v("covered", "entry of %d, log state %+v: covered=%v", ts, mine, got)
		}
		if k%10 == 0 {
			run.Eval(fmt.Sprintf("entry/%x/%d/%v", sha256.Sum256([]byte(m.Value)), len(b), want))
		}
		run.Count(fmt.Sprintf("entries covered=%v", want), 1)
		if len(b) < 40 { // the old format is the serial alone
			s, err := storage.SerialCacheEntry(b).AsSerial()
			if err != nil || s.BinaryString() != string(b) {
				v("cache-entry", "old entry %s came back as %s %v", hx(string(b)), hx(s.BinaryString()), err)
			}
			if !storage.SerialCacheEntry(b).IsCovered(&cm) {
				v("covered", "an old entry is not covered")
			}
		}
	}
}

// c16Lists: stored lists and cached sets come back exactly.
func c16Lists(run *mon.Run, r *rand.Rand, i int) {
	v := func(key, f string, a ...any) { run.Violation(key, fmt.Sprintf(f, a...), nil) }
	w := NewW(run, r)
	defer w.Close()
	for k := 0; k < 6; k++ {
		var exp types.ExpDate
		t := time.Unix(r.Int63n(4e9)+86400, 0).UTC()
		if r.Intn(3) == 0 {
			t = t.AddDate(r.Intn(400)-130, 0, 0) // dates before 1970 too
		}
		var err error
		if r.Intn(2) == 0 {
			exp = types.NewExpDateFromTime(t)
		} else if exp, err = types.NewExpDate(t.Format("2006-01-02")); err != nil {
			v("expiry", "%v", err)
		}
		is := types.NewIssuerFromSPKI(rbytes(r, k))
		var serials []types.Serial
		var want []string
		n := r.Intn(60)
		for j := 0; j < n; j++ {
			b := rbytes(r, j)
			if i%8 == 7 && j == 0 {
				b = make([]byte, []int{16380, 16384, 32767, 32768, 33000, 65536, 500000}[r.Intn(7)])
				r.Read(b)
			}
			serials = append(serials, types.NewSerialFromBytes(b))
			want = append(want, string(b))
		}
		dir := filepath.Join(w.dir, "serials", "issuer::"+is.ID())
		os.MkdirAll(dir, 0755)
		var buf bytes.Buffer
		if err := storage.WriteSerialList(&buf, exp, is, serials); err != nil {
			v("list", "write: %v", err)
		}
		os.WriteFile(filepath.Join(dir, "serials::"+exp.ID()+"::"+is.ID()), buf.Bytes(), 0644)
		got, err := w.db.ReadSerialsFromStorage(exp, is)
		if err != nil {
			v("list", "list of %d serials for %s cannot be read back: %v", n, exp.ID(), err)
			continue
		}
		var g []string
		for _, s := range got {
			g = append(g, s.BinaryString())
		}
		sort.Strings(g)
		sort.Strings(want)
		if strings.Join(g, "|") != strings.Join(want, "|") || len(g) != len(want) {
			v("list", "list of %d serials came back as %d others", n, len(got))
		}
		// under another expiry it must not be accepted as that expiry's list
		var other types.ExpDate
		if exp2, err := types.NewExpDate(t.AddDate(0, 0, 1+r.Intn(300)).Format("2006-01-02")); err == nil {
			other = exp2
			os.WriteFile(filepath.Join(dir, "serials::"+other.ID()+"::"+is.ID()), buf.Bytes(), 0644)
			if l, err := w.db.ReadSerialsFromStorage(other, is); err == nil {
				v("list", "list written for %s was read as one for %s (%d serials)", exp.ID(), other.ID(), len(l))
			}
			os.Remove(filepath.Join(dir, "serials::"+other.ID()+"::"+is.ID()))
		}
		// the directory tells which lists exist
		ids, err := w.db.GetIssuerAndDatesFromStorage()
		if err != nil {
			v("list", "listing: %v", err)
		}
		ok := false
		for _, id := range ids {
			for _, e := range id.ExpDates {
				if id.Issuer.ID() == is.ID() && e.ID() == exp.ID() {
					ok = true
				}
			}
		}
		if !ok {
			v("list", "%s %s is not listed", is.ID(), exp.ID())
		}
		run.Eval(fmt.Sprintf("list/%s/%d/%d", exp.ID(), n, buf.Len()))
		run.Count("lists", 1)
	}
	recs := w.Make(30)
	if err := w.Put(recs); err != nil {
		mon.Infra("%v", err)
	}
	listed, err := w.db.GetIssuerAndDatesFromCache()
	if err != nil {
		v("list", "listing the cache: %v", err)
	}
	got := map[Bin]Set{}
	for _, id := range listed {
		for _, e := range id.ExpDates {
			m, err := w.db.ReadEntriesFromCache(e, id.Issuer)
			if err != nil {
				v("list", "reading the cache: %v", err)
			}
			b := Bin{e.ID(), id.Issuer.ID()}
			got[b] = Set{}
			for x := range m {
				got[b][x] = true
			}
		}
	}
	for _, b := range allBins(got, w.ledger) {
		if d := diff(w.ledger[b], got[b]); d != "" {
			v("cache-entry", "read from the cache: %s: %s", b.Key(), d)
		}
	}
	run.Eval(fmt.Sprintf("cacheread/%d", len(got)))
}

func c16States(run *mon.Run, r *rand.Rand) {
	v := func(key, f string, a ...any) { run.Violation(key, fmt.Sprintf(f, a...), nil) }
	w := NewW(run, r)
	defer w.Close()
	want := map[string]types.CTLogState{}
	u := func() uint64 {
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return math.MaxUint64 - uint64(r.Intn(2))
		case 2:
			return 1<<53 + uint64(r.Intn(5)) // not a float64
		}
		return r.Uint64() >> r.Intn(64)
	}
	eq := func(a, b types.CTLogState) bool {
		t := a.LastUpdateTime.Equal(b.LastUpdateTime)
		a.LastUpdateTime, b.LastUpdateTime = time.Time{}, time.Time{}
		return t && reflect.DeepEqual(a, b)
	}
	for n := 1 + r.Intn(8); n > 0; n-- {
		var id [32]byte
		r.Read(id[:])
		st := types.CTLogState{LogID: base64.StdEncoding.EncodeToString(id[:]), MMD: u(), MinEntry: u(), MaxEntry: u(), MinTimestamp: u(), MaxTimestamp: u(),
			ShortURL:       fmt.Sprintf("h%d.example%s", n, []string{"", "/a", "/a/b%20c", "/ä", "/2026h1", ":8080/x"}[r.Intn(6)]),
			LastUpdateTime: time.Unix(r.Int63n(4e9), r.Int63n(1e9)).In(c09Locs[r.Intn(7)])}
		if k, err := st.KeyID(); err != nil || k != id {
			v("state", "KeyID of %s is %x %v", st.LogID, k, err)
		}
		want[st.ShortURL] = st
		if err := w.ing.SaveLogState(&st); err != nil {
			v("state", "save: %v", err)
			continue
		}
		got, err := w.cache.LoadLogState(st.ShortURL)
		if err != nil || got == nil || !eq(*got, st) {
			v("state", "saved %+v, loaded %+v, %v", st, got, err)
		}
		run.Eval(fmt.Sprintf("state/%+v", st))
		run.Count("log states", 1)
	}
	same := func(what string, l []types.CTLogState, err error) {
		if err != nil || len(l) != len(want) {
			v("state", "%s: %d of %d states, %v", what, len(l), len(want), err)
			return
		}
		for _, s := range l {
			if !eq(s, want[s.ShortURL]) {
				v("state", "%s: saved %+v, loaded %+v", what, want[s.ShortURL], s)
			}
		}
	}
	l, err := w.cache.LoadAllLogStates()
	same("all states", l, err)
	if err := w.Commit(); err != nil {
		v("commit-failed", "%v", err)
		return
	}
	l, err = w.db.GetCTLogsFromStorage()
	same("published states", l, err)
}

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"

	"vharness/lib/mon"
	"vharness/lib/proc"
)

// zones are tried for the program and for times handed to the API.
var zones = []string{"UTC", "America/St_Johns", "Pacific/Kiritimati", "Asia/Kathmandu", "Pacific/Pago_Pago", "XXX-11:30", "YYY+9:45"}

func c09(run *mon.Run) {
	run.Rule = "a case is one commit over a storage directory with lists around the present (or one sequence of insertions); distinct cases differ in resolution, distance from the present, neighbouring files and zone"
	run.Assume = []string{"the system clock does not jump", "lists that expire within 3 s of the commit are not judged"}
	mon.Par(8, run.Pick(160, 2400), func(i int) { c09Commit(run, run.Rand("commit", i), i) })
	mon.Par(8, run.Pick(80, 1200), func(i int) { c09Cache(run, run.Rand("cache", i), i) })
	mon.Par(8, run.Pick(40000, 2000000)/5000, func(i int) { c09API(run, run.Rand("api", i), 5000) })
	mon.Par(8, run.Pick(1, 4), func(i int) { c09Live(run, run.Rand("live", i), i) })
}

// listName gives the name of an expiry at a distance of n units from now.
func hourName(now time.Time, n int) string {
	return now.UTC().Truncate(time.Hour).Add(time.Duration(n) * time.Hour).Format("2006-01-02-15")
}
func dayName(now time.Time, n int) string {
	return now.UTC().Truncate(24*time.Hour).AddDate(0, 0, n).Format("2006-01-02")
}

func writeList(dir string, b Bin, serials []string) {
	t, _ := expTime(b.Exp)
	p := filepath.Join(dir, "serials", "issuer::"+b.Iss)
	os.MkdirAll(p, 0755)
	var sb strings.Builder
	fmt.Fprintf(&sb, "@%016x\n", t.Unix())
	sort.Strings(serials)
	for _, s := range serials {
		fmt.Fprintf(&sb, "%x\n", s)
	}
	if err := os.WriteFile(filepath.Join(p, "serials::"+b.Exp+"::"+b.Iss), []byte(sb.String()), 0644); err != nil {
		mon.Infra("%v", err)
	}
}

func c09Commit(run *mon.Run, r *rand.Rand, i int) {
	w := NewW(run, r)
	defer w.Close()
	os.MkdirAll(filepath.Join(w.dir, "serials"), 0755)
	now := time.Now()
	var bins []Bin
	for k := r.Intn(4); k >= 0; k-- {
		spki := make([]byte, 50)
		r.Read(spki)
		is := types.NewIssuerFromSPKI(spki)
		mode := r.Intn(5)
		for n := 1 + r.Intn(14); n > 0; n-- {
			var e string
			switch {
			case mode == 0: // nothing here has expired
				e = hourName(now, r.Intn(5000))
			case mode == 1: // everything here has expired
				e = hourName(now, -1-r.Intn(5000))
			case r.Intn(3) == 0:
				e = dayName(now, r.Intn(7)-3)
			case r.Intn(8) == 0:
				e = dayName(now, r.Intn(4000)-2000)
			default:
				e = hourName(now, []int{-49, -25, -24, -23, -12, -3, -2, -1, 0, 0, 0, 1, 2, 3, 12, 23, 24, 25}[r.Intn(18)])
			}
			b := Bin{e, is.ID()}
			bins = append(bins, b)
			var ss []string
			for j := r.Intn(4); j >= 0; j-- {
				ss = append(ss, w.serial())
			}
			writeList(w.dir, b, ss)
		}
	}
	// things that are not serial lists
	others := map[string]string{}
	put := func(rel, txt string) {
		p := filepath.Join(w.dir, rel)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte(txt), 0644)
		others[rel] = txt
	}
	iss := bins[r.Intn(len(bins))].Iss
	in := func(n string) string { return "serials/issuer::" + iss + "/" + n }
	old := hourName(now, -30)
	for _, j := range []string{in("README"), in("serials::" + old), in("serials::" + old + "::" + iss + "::old"), in("serials::not-a-date::" + iss), in("serials"),
		in(old), in("serials::" + old + "-00::" + iss), in("serials::2020-13-01::" + iss), in("serials::20200101::" + iss), in("serials::2020-01-01-xx::" + iss), in("serials::::" + iss),
		in("notes/serials::" + old + "::" + iss),
		"serials/README", "serials/serials::" + old + "::" + iss, "serials/backup/serials::" + old + "::" + iss, "serials/issuer::junk/x", "keep.txt", "ct-logs.json.bak",
		"serials/" + iss + "/serials::" + old + "::" + iss} {
		if r.Intn(3) == 0 {
			put(j, fmt.Sprintf("%x\n", r.Int63()))
		}
	}
	// some lists also have new entries waiting in the cache; lists of expired
	// hours are there because redis had no chance to drop them yet
	waiting := 0
	if r.Intn(2) == 0 {
		for j := 0; j < 1+r.Intn(6); j++ {
			b := bins[r.Intn(len(bins))]
			l := w.logs[r.Intn(len(w.logs))]
			w.rs.C.SAdd(b.Key(), encMember(w.ts(l), l.ID, w.serial()))
			waiting++
		}
	}
	if r.Intn(6) == 0 {
		w.rs.C.SAdd("serials::garbage::"+iss, "x")
	}
	w.SaveLogs()
	s0, k0 := readStorage(w.dir), readCache(w.rs)
	what := "commit"
	t0 := time.Now()
	if i%3 == 0 {
		z := zones[(i/3)%len(zones)]
		what = "commit program, TZ=" + z
		tmp := filepath.Join(filepath.Dir(w.dir), "tmp")
		os.MkdirAll(tmp, 0755)
		res := proc.Run(filepath.Join(binDir, "commit"), []string{"-logtostderr"}, append(w.commitEnv(tmp), "TZ="+z), tmp, 60*time.Second)
		if res.Code != 0 {
			run.Violation("commit-failed", what+": "+res.String(), nil)
			return
		}
	} else if err := w.Commit(); err != nil {
		run.Violation("commit-failed", err.Error(), nil)
		return
	}
	t1 := time.Now()
	s1 := readStorage(w.dir)
	for _, p := range s1.Problems {
		if !strings.Contains(p, "20200101") {
			run.Violation("storage-unreadable", what+": "+p, nil)
		}
	}
	for _, b := range allBins(s0.Bins, k0.Bins) {
		end, ok := expEnd(b.Exp)
		if !ok {
			continue
		}
		got, have := s1.Bins[b]
		_, had := s0.Bins[b]
		rel := int(end.Sub(t0).Hours())
		if rel > 60 || rel < -60 {
			rel = rel / 600 * 600
		}
		switch {
		case !end.After(t0.Add(-3 * time.Second)):
			if have {
				run.Violation("expired-kept", fmt.Sprintf("%s: list %s, expired since %s, is still stored (now %s)", what, b.Key(), end, t1.UTC()), nil)
			}
			run.Eval(fmt.Sprintf("expired/%d/%v/%d", len(b.Exp), len(k0.Bins[b]) > 0, rel))
			run.Count("expired lists", 1)
		case end.After(t1.Add(3 * time.Second)):
			if had && !have {
				run.Violation("unexpired-dropped", fmt.Sprintf("%s: list %s, valid until %s, was dropped (now %s)", what, b.Key(), end, t0.UTC()), nil)
				continue
			}
			if d := diff(union(s0.Bins[b], coveredSerials(k0.Logs, k0.Bins[b])), got); d != "" {
				run.Violation("unexpired-changed", what+": "+b.Key()+": "+d, nil)
			}
			run.Eval(fmt.Sprintf("valid/%d/%v/%d", len(b.Exp), len(k0.Bins[b]) > 0, rel))
			run.Count("valid lists", 1)
			if end.Sub(t1) <= 24*time.Hour && end.Sub(t1) > 0 {
				run.Count("valid lists in their last hour or day", 1)
			}
		}
	}
	for rel, txt := range others {
		b, err := os.ReadFile(filepath.Join(w.dir, rel))
		if err != nil || string(b) != txt {
			run.Violation("other-file", what+": "+rel+" is not a serial list but was changed or removed", nil)
		}
		run.Eval("other/" + strings.ReplaceAll(rel, iss, "I"))
	}
	run.Count("commits", 1)
	run.Count("lists with new entries", waiting)
}

// c09Cache: what is recorded gets an expiry that is late enough, and keeps it
// through commits that empty the set and insertions that fill it again.
func c09Cache(run *mon.Run, r *rand.Rand, i int) {
	w := NewW(run, r)
	defer w.Close()
	now := time.Now()
	for k := range w.exps {
		if r.Intn(2) == 0 {
			w.exps[k] = hourName(now, []int{1, 1, 2, 3, 24, 25, 8760}[r.Intn(7)])
		}
	}
	w.exps = append(w.exps, hourName(now, 1))
	var recorded []Rec
	check := func(what string) {
		for _, b := range allBins(w.ledger) {
			n, err := w.rs.C.SCard(b.Key()).Result()
			if err != nil {
				mon.Infra("scard: %v", err)
			}
			if n == 0 {
				continue
			}
			x, err := w.rs.C.Do("EXPIRETIME", b.Key()).Int64()
			if err != nil {
				mon.Infra("expiretime: %v", err)
			}
			t, _ := expTime(b.Exp)
			if x >= 0 && x < t.Unix() {
				run.Violation("cache-early", fmt.Sprintf("%s: %s leaves the cache at %s", what, b.Key(), time.Unix(x, 0).UTC()), nil)
			}
			if x == -1 && n > 0 {
				run.Violation("cache-forever", fmt.Sprintf("%s: %s has no expiry in the cache", what, b.Key()), nil)
			}
			if x > t.Add(49*time.Hour).Unix() {
				run.Violation("cache-forever", fmt.Sprintf("%s: %s leaves the cache only at %s", what, b.Key(), time.Unix(x, 0).UTC()), nil)
			}
			run.Eval(fmt.Sprintf("cache/%s/%d", what, x-t.Unix()))
			run.Count("cache keys judged", 1)
		}
	}
	steps := 2 + r.Intn(5)
	for s := 0; s < steps; s++ {
		recs := w.Make(1 + r.Intn(20))
		if r.Intn(3) == 0 && len(recorded) > 0 { // the same again
			recs = append(recs, recorded[r.Intn(len(recorded))])
		}
		if r.Intn(3) == 0 {
			for _, x := range recs {
				it := w.item(x)
				if _, err := w.ing.Insert(it); err != nil {
					mon.Infra("insert: %v", err)
				}
				if w.ledger[x.Bin] == nil {
					w.ledger[x.Bin] = Set{}
				}
				w.ledger[x.Bin][x.Mem] = true
			}
		} else if err := w.Put(recs); err != nil {
			mon.Infra("put: %v", err)
		}
		recorded = append(recorded, recs...)
		k := readCache(w.rs)
		for _, x := range recs {
			t, _ := expTime(x.Bin.Exp)
			if t.After(time.Now().Add(3*time.Second)) && !k.Bins[x.Bin][x.Mem] {
				run.Violation("cache-early", fmt.Sprintf("%s recorded, not yet expired, but not in the cache", x.Bin.Key()), nil)
			}
		}
		check("store")
		if r.Intn(2) == 0 {
			w.SaveLogs()
			if r.Intn(2) == 0 { // everything moves, sets become empty
				for _, l := range w.logs {
					l.Max = w.now + l.MMD*1000 + 1000000000000
				}
				w.SaveLogs()
			}
			if err := w.Commit(); err != nil {
				run.Violation("commit-failed", err.Error(), nil)
				return
			}
			check("commit")
		}
	}
	run.Count("cache histories", 1)
}

var c09Locs []*time.Location

func init() {
	for _, o := range []int{0, 3600, -3600, 12600, 20700, 50400, -43200, 34200, 1, -86399} {
		c09Locs = append(c09Locs, time.FixedZone(fmt.Sprint(o), o))
	}
}

// c09API judges single decisions.
func c09API(run *mon.Run, r *rand.Rand, n int) {
	for k := 0; k < n; k++ {
		base := time.Unix(r.Int63n(4102444800*2)-2208988800, 0).UTC()
		day := r.Intn(2) == 0
		var name string
		var end time.Time
		if day {
			name = base.Format("2006-01-02")
			end = base.Truncate(24 * time.Hour).Add(24 * time.Hour)
		} else {
			name = base.Format("2006-01-02-15")
			end = base.Truncate(time.Hour).Add(time.Hour)
		}
		e, err := types.NewExpDate(name)
		if err != nil {
			run.Violation("unreadable", name+": "+err.Error(), nil)
			continue
		}
		var d time.Duration
		switch r.Intn(6) {
		case 0:
			d = 0
		case 1:
			d = -time.Duration(2+r.Intn(5)) * time.Millisecond
		case 2:
			d = time.Duration(r.Intn(10)) * time.Nanosecond
		case 3:
			d = time.Duration(r.Intn(172800)-86400) * time.Second
		case 4:
			d = -time.Second
		case 5:
			d = time.Duration(r.Int63n(int64(20*365*24*time.Hour))) - 10*365*24*time.Hour
		}
		t := end.Add(d).In(c09Locs[r.Intn(len(c09Locs))])
		if d < 0 && d > -2*time.Millisecond {
			continue
		}
		if got, want := e.IsExpiredAt(t), d >= 0; got != want {
			run.Violation("expiry-decision", fmt.Sprintf("%s at %s: expired=%v", name, t, got), nil)
		}
		if e.ExpireTime().After(end) || e.ExpireTime().Before(end.Add(-24*time.Hour)) {
			run.Violation("expiry-time", fmt.Sprintf("%s: ExpireTime %s", name, e.ExpireTime()), nil)
		}
		if k%50 == 0 {
			run.Eval(fmt.Sprintf("api/%v/%v/%s", day, d, name))
		}
		// the cache key of a certificate
		na := base.Add(time.Duration(r.Intn(3600)) * time.Second).In(c09Locs[r.Intn(len(c09Locs))])
		m := storage.NewSerialCacheKey(types.NewExpDateFromTime(na), types.NewIssuerFromString("x")).NewMember(1, [32]byte{}, types.NewSerialFromBytes([]byte{1}))
		if m.Expiry.Before(na.Truncate(time.Hour)) || m.Expiry.After(na.Truncate(time.Hour).Add(49*time.Hour)) {
			run.Violation("cache-early", fmt.Sprintf("certificate of %s would leave the cache at %s", na, m.Expiry), nil)
		}
	}
	run.Count("decisions judged", n)
}

// c09Live: an entry that redis itself would drop too early disappears from a
// set; time is real, so only the short end is looked at.
func c09Live(run *mon.Run, r *rand.Rand, i int) {
	w := NewW(run, r)
	defer w.Close()
	now := time.Now()
	if now.Truncate(time.Hour).Add(time.Hour).Sub(now) < 10*time.Second {
		return // the hour is about to begin
	}
	w.exps = []string{hourName(now, 1)}
	if err := w.Put(w.Make(20)); err != nil {
		mon.Infra("%v", err)
	}
	time.Sleep(1200 * time.Millisecond)
	k := readCache(w.rs)
	for b, s := range w.ledger {
		if d := diff(s, k.Bins[b]); d != "" {
			run.Violation("cache-early", "entries of the coming hour disappeared: "+d, nil)
		}
	}
	run.Eval("live")
}

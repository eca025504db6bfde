package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"time"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"

	"vharness/lib/ctsrv"
	"vharness/lib/mon"
)

// c02case is one log with a prepared state and one kind of tampering.
type c02case struct {
	l        *LogInfo
	old      [2]int64 // claim before the run, -1 none
	tamper   string
	bad      int64 // this entry must not become covered (-1: none)
	badTo    int64 // last of the range that must not become covered
	frozen   bool  // nothing at all may become covered
	done     bool
	describe string
}

func sizesFor(r *rand.Rand, i int) (old, size int) {
	switch i % 4 {
	case 0: // systematic small pairs
		n := (i / 4) % 741 // pairs old<size, size in 4..40
		for s := 4; s <= 40; s++ {
			if n < s {
				return n, s
			}
			n -= s
		}
		return r.Intn(30), 40
	case 1:
		s := 4 + r.Intn(60)
		return r.Intn(s), s
	case 2:
		p := 1 << uint(2+r.Intn(6))
		s := p + r.Intn(5) - 2
		if s < 4 {
			s = 4
		}
		return r.Intn(s), s
	}
	s := 64 + r.Intn(140)
	return r.Intn(s), s
}

// subtreeOf finds the leaf ranges whose hash is h in the tree of that size.
func subtreeOf(l *ctsrv.Log, size uint64, h []byte) (lo, hi int64) {
	for lv := uint(0); lv < 16; lv++ {
		k := uint64(0)
		if k = l.Off >> lv; k > 0 {
			k--
		}
		for ; k<<lv < size; k++ {
			a, b := k<<lv, (k+1)<<lv
			if b > size {
				b = size
			}
			if b <= l.Off {
				continue // every filler subtree of a size has the same hash
			}
			x := l.RangeHash(a, b)
			if bytes.Equal(x[:], h) {
				return int64(a), int64(b - 1)
			}
		}
	}
	return -1, -1
}

// freeze: a proof term over these entries is wrong. If none of them is
// claimed yet, none may become claimed in this run.
func (c *c02case) freeze(lo, hi int64) {
	if lo >= 0 && (c.old[1] < lo || hi < c.old[0]) {
		c.bad, c.badTo = lo, hi
	}
}

var itemTampers = []string{"flip-leaf", "flip-ext", "swap", "dup", "drop", "truncate", "empty", "replace", "timestamp", "trailing", "lastbyte", "garbage", "extra-garbage", "extra-empty", "extra-truncate", "extra-trailing"}
var proofTampers = []string{"proof-flip", "proof-short-hash", "proof-long-hash", "proof-drop", "proof-add", "proof-swap", "proof-empty", "proof-zero", "pair-extra", "pair-missing"}

// committedTampers are leaves that the log itself has committed to.
var committedTampers = []string{"committed-garbage", "committed-badcert", "committed-badextra"}

func (c *c02case) install(r *rand.Rand, back bool) {
	l := c.l
	newLo, newHi := c.old[1]+1, int64(l.Size)-1
	if back {
		newLo, newHi = int64(l.Off), c.old[0]-1
	}
	if newLo > newHi {
		return
	}
	t := newLo + r.Int63n(newHi-newLo+1)
	switch r.Intn(6) {
	case 0:
		t = newLo
	case 1:
		t = newHi
	}
	seed := r.Int63()
	items := func(f func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item) {
		l.TamperItems = func(start uint64, it []ctsrv.Item) []ctsrv.Item {
			k := t - int64(start)
			if k < 0 || k >= int64(len(it)) {
				return it
			}
			return f(rand.New(rand.NewSource(seed)), append([]ctsrv.Item(nil), it...), int(k))
		}
		c.bad, c.badTo = t, t
	}
	cp := func(b []byte) []byte { return append([]byte(nil), b...) }
	other := func(t int64) ctsrv.Item {
		o := int64(l.Off) + int64(rand.New(rand.NewSource(seed+1)).Intn(len(l.Entries)))
		if o == t {
			o = int64(l.Off) + (t+1-int64(l.Off))%int64(len(l.Entries))
		}
		return ctsrv.Item{Leaf: l.At(uint64(o)).LeafInput(nil), Extra: l.At(uint64(o)).ExtraData()}
	}
	switch c.tamper {
	case "flip-leaf":
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			b := cp(it[k].Leaf)
			b[rr.Intn(len(b))] ^= 1 << uint(rr.Intn(8))
			it[k].Leaf = b
			return it
		})
	case "flip-ext": // the two length octets of the (empty) extensions
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			b := cp(it[k].Leaf)
			b = append(b[:len(b)-2], 0, 3, 1, 2, 3)
			it[k].Leaf = b
			return it
		})
	case "timestamp":
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			b := cp(it[k].Leaf)
			b[9] ^= 1
			it[k].Leaf = b
			return it
		})
	case "swap":
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			if k+1 < len(it) {
				it[k], it[k+1] = it[k+1], it[k]
			} else {
				it[k] = other(t)
			}
			return it
		})
	case "dup":
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			if k > 0 {
				it[k] = it[k-1]
			} else {
				it[k] = other(t)
			}
			return it
		})
	case "drop":
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			if k+1 < len(it) {
				return append(it[:k], it[k+1:]...)
			}
			it[k] = other(t)
			return it
		})
	case "truncate":
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			it[k].Leaf = cp(it[k].Leaf)[:rr.Intn(len(it[k].Leaf))]
			return it
		})
	case "empty":
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			it[k].Leaf = []byte{}
			return it
		})
	case "trailing":
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			it[k].Leaf = append(cp(it[k].Leaf), 0)
			return it
		})
	case "lastbyte":
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			b := cp(it[k].Leaf)
			b[len(b)-3] ^= 1
			it[k].Leaf = b
			return it
		})
	case "garbage":
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			b := make([]byte, 20+rr.Intn(100))
			rr.Read(b)
			it[k].Leaf = b
			return it
		})
	case "extra-garbage", "extra-empty", "extra-truncate", "extra-trailing":
		if !l.At(uint64(t)).Eligible {
			return
		}
		how := c.tamper
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			b := cp(it[k].Extra)
			switch how {
			case "extra-garbage":
				b = make([]byte, 20+rr.Intn(100))
				rr.Read(b)
				b[0] |= 0x80
			case "extra-empty":
				b = []byte{}
			case "extra-truncate":
				b = b[:rr.Intn(len(b))]
			default:
				b = append(b, 0)
			}
			it[k].Extra = b
			return it
		})
	case "pair-extra", "pair-missing":
		// Leaves and proof agree with each other, but not on the number of
		// leaves.
		how := c.tamper
		at := int64(-1)
		l.TamperProof = func(old, size uint64, p [][]byte) [][]byte {
			rr := rand.New(rand.NewSource(seed))
			for _, k := range rr.Perm(len(p)) {
				lo, hi := subtreeOf(l.Log, size, p[k])
				if lo < 0 || !(c.old[1] < lo || hi < c.old[0]) || how == "pair-missing" && lo == hi {
					continue
				}
				at = hi
				var h [32]byte
				if how == "pair-extra" {
					h = ctsrv.PairHash(l.RangeHash(uint64(lo), uint64(hi)+1), ctsrv.LeafHash(l.At(uint64(lo)).LeafInput(nil)))
				} else {
					n := int64(1)
					for n*2 < hi-lo+1 {
						n *= 2
					}
					h = l.RangeHash(uint64(lo), uint64(lo+n))
				}
				c.l.TamperItems = func(start uint64, it []ctsrv.Item) []ctsrv.Item {
					if int64(start)+int64(len(it))-1 != at {
						return it
					}
					it = append([]ctsrv.Item(nil), it...)
					if how == "pair-extra" {
						return append(it, ctsrv.Item{Leaf: l.At(uint64(lo)).LeafInput(nil), Extra: l.At(uint64(lo)).ExtraData()})
					}
					it[len(it)-1].Leaf = []byte{7, 7, 7}
					return it
				}
				c.freeze(lo, hi)
				p[k] = h[:]
				break
			}
			return p
		}
	case "replace":
		items(func(rr *rand.Rand, it []ctsrv.Item, k int) []ctsrv.Item {
			it[k] = other(t)
			return it
		})
	case "proof-flip":
		// Bad terms freeze exactly the entries below them; decided when the
		// proof is asked for.
		l.TamperProof = func(old, size uint64, p [][]byte) [][]byte {
			if len(p) == 0 {
				return p
			}
			k := rand.New(rand.NewSource(seed)).Intn(len(p))
			lo, hi := subtreeOf(l.Log, size, p[k])
			c.freeze(lo, hi)
			p[k] = cp(p[k])
			p[k][rand.New(rand.NewSource(seed+9)).Intn(32)] ^= 0x10
			return p
		}
	case "proof-short-hash", "proof-long-hash", "proof-zero":
		how := c.tamper
		l.TamperProof = func(old, size uint64, p [][]byte) [][]byte {
			if len(p) == 0 {
				return p
			}
			k := rand.New(rand.NewSource(seed)).Intn(len(p))
			lo, hi := subtreeOf(l.Log, size, p[k])
			c.freeze(lo, hi)
			switch how {
			case "proof-short-hash":
				p[k] = p[k][:rand.New(rand.NewSource(seed+2)).Intn(32)]
			case "proof-long-hash":
				p[k] = append(cp(p[k]), 0)
			default:
				p[k] = make([]byte, 32)
			}
			return p
		}
	case "proof-drop", "proof-add", "proof-empty":
		how := c.tamper
		c.frozen = true
		l.TamperProof = func(old, size uint64, p [][]byte) [][]byte {
			switch {
			case len(p) == 0:
				p = [][]byte{make([]byte, 32)}
			case how == "proof-drop":
				k := rand.New(rand.NewSource(seed)).Intn(len(p))
				p = append(append([][]byte{}, p[:k]...), p[k+1:]...)
			case how == "proof-add":
				p = append(append([][]byte{}, p...), p[len(p)-1])
			default:
				p = [][]byte{}
			}
			return p
		}
	case "proof-swap":
		l.TamperProof = func(old, size uint64, p [][]byte) [][]byte {
			if len(p) < 2 || bytes.Equal(p[0], p[1]) {
				return p
			}
			k := rand.New(rand.NewSource(seed)).Intn(len(p) - 1)
			for _, h := range [][]byte{p[k], p[k+1]} {
				lo, hi := subtreeOf(l.Log, size, h)
				c.freeze(lo, hi)
			}
			p[k], p[k+1] = p[k+1], p[k]
			return p
		}
	}
}

func (e *Env) preseed(l *LogInfo, min, max int64) {
	u, _ := url.Parse(l.URL())
	st, err := e.db.GetLogState(u)
	if err != nil {
		mon.Infra("preseed: %v", err)
	}
	st.LogID, st.MMD = l.LogIDB64(), l.MMD
	st.MinEntry, st.MaxEntry = uint64(min), uint64(max)
	st.MinTimestamp, st.MaxTimestamp = l.At(uint64(min)).TS, l.At(uint64(min)).TS
	first := min
	if first < int64(l.Off) {
		first = int64(l.Off) - 1
	}
	for i := first; i <= max; i++ {
		x := l.At(uint64(i))
		if x.TS < st.MinTimestamp {
			st.MinTimestamp = x.TS
		}
		if x.TS > st.MaxTimestamp {
			st.MaxTimestamp = x.TS
		}
		if x.Eligible {
			e.put(l, x)
		}
	}
	st.LastUpdateTime = time.Now().Add(-time.Hour)
	if err := e.cache.StoreLogState(st); err != nil {
		mon.Infra("preseed: %v", err)
	}
}

// put records an entry the way ingestion would.
func (e *Env) put(l *LogInfo, x *ctsrv.Entry) {
	d, err := types.NewExpDate(x.Hour)
	if err != nil {
		mon.Infra("put: %v", err)
	}
	k := storage.NewSerialCacheKey(d, types.NewIssuerFromString(x.IssuerID))
	m := k.NewMember(x.TS, l.LogID, types.NewSerialFromHex(x.Serial))
	if err := e.db.Store([]storage.SetMemberWithExpiry{m}); err != nil {
		mon.Infra("put: %v", err)
	}
}

func c02world(run *mon.Run, w int, nLogs int) {
	name := fmt.Sprintf("world%d", w)
	e := NewEnv(run, name, []uint64{4, 16, 64, 256, 1024}[(w+int(run.Seed))%5])
	defer e.Close()
	r := e.r
	var cases []*c02case
	all := append(append(append([]string{"none", "none"}, itemTampers...), proofTampers...), committedTampers...)
	for k := 0; k < nLogs; k++ {
		i := w*nLogs + k
		old, size := sizesFor(r, i)
		l := e.AddLog(false, 3600)
		off := int64(0)
		if r.Intn(4) == 0 {
			off = int64(e.Long(l))
		}
		tamper := all[(i+i/len(all))%len(all)]
		committed := strings.HasPrefix(tamper, "committed") && old < size
		bad := old
		if committed {
			bad += r.Intn(size - old)
			e.Grow(l, bad, e.NormalTS(l))
			x := e.w.New(ctsrv.X509, e.NormalTS(l)(bad))
			x.Eligible, x.Note = false, tamper
			switch tamper {
			case "committed-garbage":
				x.RawLeaf = make([]byte, 10+r.Intn(300))
				r.Read(x.RawLeaf)
			case "committed-badcert":
				x.Cert = x.Cert[:len(x.Cert)/2]
			case "committed-badextra":
				x.RawExtra = x.ExtraData()[:r.Intn(20)]
			}
			l.Append(x)
			e.Grow(l, size-bad-1, e.NormalTS(l))
		} else {
			e.Grow(l, size, e.NormalTS(l))
		}
		l.PubAll()
		l.Chunk = randomChunk(r)
		c := &c02case{l: l, old: [2]int64{-1, -1}, tamper: tamper, bad: -1, badTo: -1}
		back := r.Intn(4) == 0 && old > 0 && !committed
		if back {
			l.Reach = uint64(off)
			c.old = [2]int64{off + int64(old), off + int64(size) - 1}
			e.preseed(l, c.old[0], c.old[1])
		} else if old > 0 || off > 0 && r.Intn(3) > 0 {
			c.old = [2]int64{0, off + int64(old) - 1}
			if r.Intn(5) == 0 && old > 0 {
				l.Reach = uint64(off)
				c.old[0] = off + r.Int63n(int64(old))
			}
			e.preseed(l, c.old[0], c.old[1])
		} else {
			l.Reach = uint64(off)
		}
		c.install(r, back)
		if committed {
			c.bad = off + int64(bad)
			c.badTo, l.Limit, l.Done = c.bad, c.bad, true
		}
		c.describe = fmt.Sprintf("size %d+%d claim before %v backfill=%v tampering %s entry %d batch %d", off, size, c.old, back, c.tamper, c.bad, e.batch)
		cases = append(cases, c)
	}
	check := func(s *Snap, phase string) {
		for _, c := range cases {
			st, ok := s.States[c.l.ShortURL()]
			lo, hi := c.old[0], c.old[1]
			if ok && !st.LastUpdateTime.IsZero() {
				lo, hi = int64(st.MinEntry), int64(st.MaxEntry)
			}
			covers := func(i int64) bool {
				return hi >= 0 && lo <= i && i <= hi && !(c.old[1] >= 0 && c.old[0] <= i && i <= c.old[1])
			}
			bad := c.bad
			for i := c.bad; i >= 0 && i <= c.badTo; i++ {
				if covers(i) {
					bad = i
					run.Violation("covered-unverified-"+c.tamper, fmt.Sprintf("%s: %s: claim became [%d,%d] which includes entry %d", name, c.describe, lo, hi, i), e.Detail(c.l))
					break
				}
			}
			if c.frozen && (lo != c.old[0] || hi != c.old[1]) {
				run.Violation("covered-unverified-"+c.tamper, fmt.Sprintf("%s: %s: claim became [%d,%d] under a malformed proof", name, c.describe, lo, hi), e.Detail(c.l))
			}
			_ = bad
			c.old = [2]int64{lo, hi}
			if strings.HasPrefix(c.tamper, "p") {
				c.bad, c.badTo = -1, -1
			}
			run.Eval(fmt.Sprintf("%s/%s/%d/%v/%s", name, phase, c.l.Size, c.old, c.tamper))
			run.Count("cases "+c.tamper, 1)
			run.Sample(c.tamper, map[string]any{"case": c.describe, "claim after": []int64{lo, hi}})
		}
	}
	// Two runs against the tampering servers.
	for i := 0; i < 2; i++ {
		e.healthyRun()
		check(e.Observe(), fmt.Sprint("tampered", i))
		e.Age()
	}
	// The servers heal: correct leaves and proofs must be accepted.
	for _, c := range cases {
		c.l.Lock()
		c.l.TamperItems, c.l.TamperProof = nil, nil
		c.l.Unlock()
	}
	e.Converge("C02")
}

func (e *Env) healthyRun() {
	res := e.Run(RunOpt{})
	if res.TimedOut || res.Crashed() {
		e.run.Violation("crash-or-hang", fmt.Sprintf("%s: ct-fetch did not end normally: %s", e.name, res), e.Detail(nil))
	}
}

func c02(run *mon.Run) {
	run.Rule = "RFC 6962 logs with a prepared claim (every pair of claim end and tree size up to 40, sampled to 204, forwards and backfilling) served by a log server that tampers with one leaf (16 ways) or with the consistency proof (8 ways), or with both consistently (2 ways), or has committed to an entry that cannot be parsed (3 ways), and controls without tampering; ct-fetch runs twice, the claim must not extend over the tampered entry or the entries under the tampered proof term; then the server heals and the claim must become complete. One evaluation per log and run."
	run.Level = "fault_enumeration"
	run.Assume = []string{"tampering is relative to the proof the server itself serves; the proof is not checked against the tree head by design"}
	n := run.Pick(40, 320)
	mon.Par(8, n, func(i int) {
		if run.Violations() > 10 {
			return
		}
		c02world(run, i, 80)
	})
}

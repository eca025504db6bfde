package main

import (
	"crypto/sha256"
	"fmt"
	"strings"

	"golang.org/x/mod/sumdb/tlog"

	"vharness/lib/ctsrv"
	"vharness/lib/mon"
)

// tileTamper makes one tiled log misbehave for the next run. The text says
// how; l.Limit is the first entry that must not become claimed.
func (e *Env) tileTamper(l *LogInfo) string {
	r := e.r
	claimed := int64(0) // first unclaimed entry
	if p := l.Prev; p != nil && !p.LastUpdateTime.IsZero() {
		claimed = int64(p.MaxEntry) + 1
	}
	l.Lock()
	defer l.Unlock()
	kind := []string{"badsig", "root", "data", "data", "hash", "issuer", "issuer", "size"}[r.Intn(8)]
	n := int64(l.Size)
	switch kind {
	case "badsig":
		l.BadSig = true
		l.Limit = claimed
	case "root":
		l.TamperRoot = true
		l.Limit = claimed
	case "data":
		if claimed >= n {
			return "none"
		}
		t := claimed + r.Int63n(n-claimed)
		mode := r.Intn(5)
		l.Limit = t
		l.TamperTile = func(tl tlog.Tile, data []byte) []byte {
			lo := tl.N * 256
			if tl.L != -1 || t < lo || t >= lo+int64(tl.W) {
				return data
			}
			off := 0
			for i := lo; i < t; i++ {
				off += len(l.At(uint64(i)).TileLeaf(i))
			}
			leaf := l.At(uint64(t)).TileLeaf(t)
			rest := data[off+len(leaf):]
			b := append([]byte(nil), leaf...)
			switch mode {
			case 0: // timestamp
				b[r.Intn(8)] ^= 4
			case 1: // certificate or TBS body
				body := 13
				if l.At(uint64(t)).Precert {
					body = 10 + 32 + 3
				}
				b[body+r.Intn(40)] ^= 1
			case 2: // another entry
				o := (t + 1) % n
				b = l.At(uint64(o)).TileLeaf(o)
			case 3: // missing
				b = nil
			case 4: // truncated
				return append([]byte(nil), data[:off+len(leaf)/2]...)
			}
			return append(append(append([]byte(nil), data[:off]...), b...), rest...)
		}
		return fmt.Sprintf("%s: data mode %d entry %d", l.Name(), mode, t)
	case "hash":
		l.TamperTile = func(tl tlog.Tile, data []byte) []byte {
			if tl.L < 0 || len(data) == 0 {
				return data
			}
			b := append([]byte(nil), data...)
			b[len(b)-1] ^= 1
			return b
		}
		l.Limit = claimed
	case "size": // checkpoint for entries that do not exist
		l.Limit = -1
		if r.Intn(2) == 0 && l.Size > 0 {
			l.Size--
			return l.Name() + ": older checkpoint"
		}
		return "none"
	case "issuer":
		ca := e.w.CAs
		wrong := ca[r.Intn(len(ca))]
		mode := r.Intn(3)
		one := ca[r.Intn(len(ca))].DER
		if r.Intn(3) == 0 {
			one = ca[r.Intn(len(ca))].PreDERs[r.Intn(len(ca[0].PreDERs))]
		}
		prefix := "issuer/"
		if r.Intn(5) > 0 {
			prefix += fmt.Sprintf("%x", sha256.Sum256(one))
		}
		l.Hook = func(q ctsrv.Req) *ctsrv.Resp {
			if q.Ep != "issuer" || !strings.HasPrefix(q.Path, prefix) {
				return nil
			}
			switch mode {
			case 0:
				return &ctsrv.Resp{Status: 404}
			case 1:
				return &ctsrv.Resp{Body: wrong.DER}
			}
			return &ctsrv.Resp{Body: wrong.PreDER}
		}
		return fmt.Sprintf("%s: issuer mode %d %s", l.Name(), mode, prefix)
	}
	return l.Name() + ": " + kind
}

func (e *Env) healTiles() {
	for _, l := range e.logs {
		l.Lock()
		l.BadSig, l.TamperRoot, l.TamperTile, l.Hook = false, false, nil, nil
		if l.Tiled {
			l.Size = l.Len()
			l.Limit = -1
		}
		l.Unlock()
	}
}

func (e *Env) tamperStep() (string, bool) {
	d := []string{}
	for _, l := range e.logs {
		if l.Tiled && e.r.Intn(3) > 0 {
			d = append(d, e.tileTamper(l))
		}
	}
	res := e.Run(RunOpt{})
	if res.TimedOut || res.Crashed() {
		e.run.Violation("crash-or-hang", fmt.Sprintf("%s: ct-fetch did not end normally under %v: %s", e.name, d, res), e.Detail(nil))
	}
	bad := e.Report(e.Check(e.Observe()))
	e.run.Count("tamper runs", 1)
	for _, x := range d {
		k := strings.Fields(x)
		if len(k) > 1 {
			e.run.Count("tamper "+k[1], 1)
		}
	}
	e.healTiles()
	return strings.Join(d, "; "), bad
}

func c03(run *mon.Run) {
	run.Rule = "Worlds of signing static-CT logs (sizes around 0, 1, 255-257, 511-513 and random to 900, growth between runs) ingested by the real ct-fetch under the faults of C01 (tile, data, issuer and checkpoint requests instead) and under tampering: bad checkpoint signature or root, altered data tile entries or hash tiles, missing or wrong issuer certificates, older checkpoints. Oracle after every run: each index up to the claim is recorded (from entry 0), claims only grow and never include an entry that did not authenticate; at the end healthy runs must complete every log. One evaluation per log and run."
	run.Level = "fault_enumeration"
	run.Assume = []string{"redis keeps what it acknowledged", "wall clock does not jump"}
	n := run.Pick(32, 320)
	mon.Par(8, n, func(i int) {
		if run.Violations() > 10 {
			return
		}
		worldRFC(run, i, 6, run.Pick(6, 12), true)
	})
	mon.Par(4, run.Pick(2, 16), func(i int) { bigWorld(run, 100+i, true) })
}

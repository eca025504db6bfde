package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"

	"vharness/lib/crlw"
	"vharness/lib/der"
	"vharness/lib/mon"
	"vharness/lib/proc"
)

func c21(run *mon.Run) {
	run.Level = "fault_enumeration"
	run.Rule = "a case is one run whose writing was limited; distinct cases differ in the program, the limit and how the run ended"
	run.Assume = []string{"a write is limited by a file size limit, a full file system, a full device or a system call that fails; the audit report is not consumed by the filter pipeline"}
	c21Writer(run)
	mon.Par(8, run.Pick(3, 16), func(i int) { c21Commit(run, i) })
	mon.Par(4, run.Pick(4, 24), func(i int) { c21Known(run, i) })
	mon.Par(4, run.Pick(4, 24), func(i int) { c21Crls(run, i) })
}

// ---- mechanisms ----

type launch func(bin string, args, env []string, dir string) proc.Result

func plain(bin string, args, env []string, dir string) proc.Result {
	return proc.Run(filepath.Join(binDir, bin), args, env, dir, 60*time.Second)
}

// fileLimit lets no file grow beyond n bytes.
func fileLimit(n int) launch {
	return func(bin string, args, env []string, dir string) proc.Result {
		return proc.Run("prlimit", append([]string{fmt.Sprintf("--fsize=%d", n), filepath.Join(binDir, bin)}, args...), env, dir, 60*time.Second)
	}
}

const roomScript = `mount -t tmpfs -o size=$VH_ROOM,mode=755$VH_INODES none "$VH_T" || exit 97
cp -a "$VH_SRC/." "$VH_T/" || exit 97
"$@"; rc=$?
cp -a "$VH_T/." "$VH_OUT/" || exit 97
exit $rc`

var roomOnce sync.Once
var roomRes bool

func canRoom() bool {
	roomOnce.Do(func() {
		roomRes = exec.Command("unshare", "-Urm", "sh", "-c", "mount -t tmpfs none /mnt && touch /mnt/x").Run() == nil
	})
	return roomRes
}

func du(dir string) (pages, inodes int) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			inodes++
			if fi.Mode().IsRegular() {
				pages += int(fi.Size()+4095) / 4096
			}
		}
		return nil
	})
	return
}

// fullDisk runs in a file system at t which starts as a copy of src and has
// room for some more pages (and inodes, if not negative). The result is in out.
func fullDisk(t, src, out string, pages, inodes int) launch {
	return func(bin string, args, env []string, dir string) proc.Result {
		p, n := du(src)
		opt := ""
		if inodes >= 0 {
			opt = fmt.Sprintf(",nr_inodes=%d", n+inodes)
		}
		if p+pages == 0 {
			pages = 1
		}
		os.MkdirAll(t, 0755)
		os.MkdirAll(out, 0755)
		env = append(env, fmt.Sprintf("VH_ROOM=%d", (p+pages)*4096), "VH_INODES="+opt, "VH_T="+t, "VH_SRC="+src, "VH_OUT="+out)
		res := proc.Run("unshare", append([]string{"-Urm", "sh", "-c", roomScript, "sh", filepath.Join(binDir, bin)}, args...), env, dir, 60*time.Second)
		if res.Code == 97 {
			mon.Infra("full disk: %s", tail(res.Stderr))
		}
		return res
	}
}

// badCall makes a system call on one of the paths fail; hit says whether it did.
func badCall(call, inj string, hit *bool, paths ...string) launch {
	return func(bin string, args, env []string, dir string) proc.Result {
		log := filepath.Join(dir, "strace.out")
		a := []string{"-f", "-qq", "-o", log, "-e", "trace=" + call, "-e", "inject=" + call + ":" + inj}
		for _, p := range paths {
			a = append(a, "-P", p)
		}
		res := proc.Run("strace", append(append(a, filepath.Join(binDir, bin)), args...), append(env, "GOMAXPROCS=2"), dir, 60*time.Second)
		b, _ := os.ReadFile(log)
		*hit = bytes.Contains(b, []byte("(INJECTED)"))
		return res
	}
}

// bounds picks interesting sizes up to (and beyond) max.
func bounds(r *rand.Rand, n int, sizes ...int) []int {
	m := map[int]bool{0: true, 1: true}
	max := 0
	for _, s := range sizes {
		if s > max {
			max = s
		}
		for _, d := range []int{-1, 0, 1} {
			if s+d >= 0 && len(m) < n {
				m[s+d] = true
			}
		}
	}
	for k := 4096; k <= max && len(m) < n; k += 4096 {
		m[k] = true
		m[k-1] = true
	}
	for i := 0; len(m) < n && i < 10*n; i++ {
		m[r.Intn(max+2)] = true
	}
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// ---- the serial list writer ----

type limited struct {
	left  int
	got   int
	short bool // report fewer bytes and no error
}

func (l *limited) Write(p []byte) (int, error) {
	n := len(p)
	if n > l.left {
		n = l.left
	}
	l.left -= n
	l.got += n
	if n < len(p) {
		if l.short {
			return n, nil
		}
		return n, errors.New("no space left")
	}
	return n, nil
}

func c21Writer(run *mon.Run) {
	r := run.Rand("writer")
	tried := 0
	for c := 0; c < run.Pick(6, 40); c++ {
		var ss []types.Serial
		for i := []int{0, 1, 3, 100, 400, 1000}[c%6]; i > 0; i-- {
			b := make([]byte, 1+r.Intn(20))
			r.Read(b)
			ss = append(ss, types.NewSerialFromBytes(b))
		}
		e, _ := types.NewExpDate(hourName(time.Now(), 100+r.Intn(5000)))
		iss := types.NewIssuerFromSPKI([]byte{byte(c)})
		var full bytes.Buffer
		if err := storage.WriteSerialList(&full, e, iss, ss); err != nil {
			run.Violation("writer-error", fmt.Sprintf("writing to a buffer: %v", err), nil)
		}
		step := 1
		if full.Len() > 5000 {
			step = 1 + full.Len()/run.Pick(2000, 20000)
		}
		for n := 0; n <= full.Len()+2; n += step {
			for _, short := range []bool{false, true} {
				var w io.Writer = &limited{left: n, short: short}
				err := storage.WriteSerialList(w, e, iss, ss)
				if got := w.(*limited).got; err == nil && got < full.Len() {
					run.Violation("false-success", fmt.Sprintf("WriteSerialList reported success after writing %d of %d bytes (short writes: %v)", got, full.Len(), short), nil)
				} else if err != nil && n >= full.Len() {
					run.Violation("writer-error", fmt.Sprintf("WriteSerialList failed although there was room: %v", err), nil)
				}
				tried++
				run.Eval(fmt.Sprintf("writer/%d/%d/%v", c, n, short))
			}
		}
		if n := full.Len(); n > 0 {
			w := &limited{left: n - 1}
			if err := storage.WriteSerialList(w, e, iss, ss); err == nil {
				run.Violation("false-success", "WriteSerialList reported success without its last byte", nil)
			}
		}
	}
	run.Count("serial list writer: limits tried", tried)
}

// ---- commit ----

func c21Commit(run *mon.Run, i int) {
	// big enough lists: one world is used again for every limit, so that it
	// must be rebuilt each time
	prior := i % 3
	mk := func() *W {
		w := crashWorld(run, "c21", i, prior)
		if i%2 == 0 { // a list of several pages
			var recs []Rec
			for _, x := range w.Make(400) {
				x.Bin = Bin{w.exps[0], w.issuers[0].ID()}
				recs = append(recs, x)
			}
			if err := w.Put(recs); err != nil {
				mon.Infra("%v", err)
			}
		}
		// a stored list of several pages whose bin has nothing to commit
		t, _ := expTime(w.exps[0])
		quiet := Bin{t.Add(7 * time.Hour).Format("2006-01-02-15"), w.issuers[0].ID()}
		for k, n := range []int{300, 5} {
			var recs []Rec
			for _, x := range w.Make(n) {
				id := w.logs[0].ID
				ts := uint64(1)
				if k == 1 {
					id[3] ^= 0x5a // nobody knows this log
				}
				recs = append(recs, Rec{quiet, encMember(ts, id, serialOf(x.Mem)), 0, ts})
			}
			if err := w.Put(recs); err != nil {
				mon.Infra("%v", err)
			}
			if k == 0 {
				w.SaveLogs()
				if err := w.Commit(); err != nil {
					run.Violation("commit-failed", fmt.Sprintf("preparing: %v", err), nil)
				}
				for _, l := range w.logs {
					l.Max += 1000000000
					l.MaxE += 500
				}
				if err := w.Put(w.Make(40)); err != nil {
					mon.Infra("%v", err)
				}
				w.SaveLogs()
			}
		}
		return w
	}
	w := mk()
	tmp, done := tmpFor(run, w, 1)
	res := w.runCommit(tmp)
	done()
	if res.Code != 0 {
		run.Violation("commit-failed", fmt.Sprintf("undisturbed: %v %s", res, tail(res.Stderr)), nil)
		w.Close()
		return
	}
	var sizes []int
	pages := 0
	filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			sizes = append(sizes, int(fi.Size()))
			pages += int(fi.Size()+4095) / 4096
		}
		return nil
	})
	w.Close()
	sort.Ints(sizes)
	type job struct {
		what string
		n    int
	}
	var jobs []job
	for _, n := range bounds(run.Rand("cb", i), run.Pick(30, 120), sizes...) {
		jobs = append(jobs, job{"file size limit", n})
	}
	if canRoom() {
		for n := 0; n <= pages*2+3 && n < 60; n++ {
			jobs = append(jobs, job{"room", n})
		}
		for n := 0; n < 14; n++ {
			jobs = append(jobs, job{"inodes", n})
		}
	} else {
		run.Count("no size-limited file systems here: skipped", 1)
	}
	mon.Par(4, len(jobs), func(j int) {
		x := jobs[j]
		w := mk()
		defer w.Close()
		tmp, done := tmpFor(run, w, 3*(j%2)) // temporary files elsewhere, or not
		defer done()
		b := w.capture()
		what := fmt.Sprintf("commit world=%d, %s of %d", i, x.what, x.n)
		var res proc.Result
		if x.what == "file size limit" {
			res = fileLimit(x.n)("commit", []string{"-logtostderr"}, w.commitEnv(tmp), tmp)
		} else {
			t, out := filepath.Join(filepath.Dir(w.dir), "t"), filepath.Join(filepath.Dir(w.dir), "out")
			os.MkdirAll(w.dir, 0755)
			p, in := x.n, -1
			if x.what == "inodes" {
				p, in = 10000, x.n
			}
			env := append(w.commitEnv(tmp), "certPath="+t)
			res = fullDisk(t, w.dir, out, p, in)("commit", []string{"-logtostderr"}, env, tmp)
			os.RemoveAll(w.dir)
			if err := os.Rename(out, w.dir); err != nil {
				mon.Infra("%v", err)
			}
		}
		what += fmt.Sprintf(" (%v)", res)
		if res.TimedOut || res.Crashed() {
			run.Violation("crash", what+": "+tail(res.Stderr), nil)
			return
		}
		st, _, _ := w.checkCrash(what, b, res.Code == 0)
		w.recover(what, b)
		run.Eval(fmt.Sprintf("commit/%d/%s/%d/%s/%d", i, x.what, x.n, st, res.Code))
		run.Count(fmt.Sprintf("commit, %s: success=%v", x.what, res.Code == 0), 1)
	})
}

// ---- aggregate-known ----

func c21Known(run *mon.Run, i int) {
	r := run.Rand("known", i)
	k := newKnown(run, r)
	defer k.Close()
	for j := 0; j < 12; j++ { // several pages for some
		var ss []string
		for m := 0; m < 1+r.Intn(300); m++ {
			ss = append(ss, k.serial())
		}
		writeList(k.dir, Bin{hourName(time.Now(), 1000+j), k.issuers[r.Intn(len(k.issuers))].ID()}, uniq(ss))
	}
	base := filepath.Dir(k.dir)
	sub := filepath.Join(base, "outputs")
	set := func(d string) {
		k.knownPath, k.ctPath = filepath.Join(d, "known"), filepath.Join(d, "ct-logs.json")
	}
	set(sub)
	os.MkdirAll(sub, 0755)
	if res := plain("aggregate-known", k.args(), k.env(), base); res.Code != 0 {
		run.Violation("failed", fmt.Sprintf("undisturbed: %v %s", res, tail(res.Stderr)), nil)
		return
	}
	k.verifyOutput("undisturbed", time.Now())
	var sizes []int
	var paths []string
	pages := 0
	filepath.Walk(sub, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			sizes = append(sizes, int(fi.Size()))
			if fi.Size() > 0 {
				paths = append(paths, p)
			}
			pages += int(fi.Size()+4095) / 4096
		}
		return nil
	})
	// everything is in storage now, so that the commit has next to nothing to
	// write and the limits hit the outputs
	one := func(kind string, n int, l launch, must *bool) {
		t0 := time.Now()
		res := l("aggregate-known", k.args(), k.env(), base)
		k.finish(fmt.Sprintf("%s %d", kind, n), res, t0, must != nil && *must)
		k.rs.C.Del(lockKey)
		run.Eval(fmt.Sprintf("known/%d/%s/%d/%d", i, kind, n, res.Code))
		run.Count(fmt.Sprintf("aggregate-known, %s: success=%v", kind, res.Code == 0), 1)
	}
	for _, n := range bounds(r, run.Pick(25, 100), sizes...) {
		if n%2 == 0 {
			os.RemoveAll(sub)
			os.MkdirAll(sub, 0755)
		}
		one("file size limit", n, fileLimit(n), nil)
	}
	os.RemoveAll(sub)
	os.MkdirAll(sub, 0755)
	if canRoom() {
		empty := filepath.Join(base, "empty")
		os.MkdirAll(empty, 0755)
		try := func(kind string, n, p, in int) {
			out := filepath.Join(base, "out")
			os.RemoveAll(out)
			set(sub)
			l := fullDisk(sub, empty, out, p, in)
			one(kind, n, func(bin string, args, env []string, dir string) proc.Result {
				res := l(bin, args, env, dir)
				set(out)
				return res
			}, nil)
			set(sub)
		}
		step := 1 + pages/run.Pick(12, 40)
		for n := 1; n <= pages+step; n += step {
			try("room", n, n, -1)
		}
		for n := 0; n < 6; n++ {
			try("inodes", n, 10000, n)
		}
	}
	if stracable() {
		sort.Strings(paths)
		for j := 0; j < len(paths) && j < run.Pick(4, 12); j++ {
			for _, c := range []string{"write error=ENOSPC:when=1", "write error=EIO:when=2+", "write error=EDQUOT:when=3", "close error=EIO:when=1"} {
				call, inj, _ := strings.Cut(c, " ")
				var hit, must bool
				one(c, j, func(bin string, args, env []string, dir string) proc.Result {
					res := badCall(call, inj, &hit, paths[j])(bin, args, env, dir)
					must = hit && call == "close"
					return res
				}, &must)
				if hit {
					run.Count("aggregate-known: system calls made to fail", 1)
				}
			}
		}
	}
	// one output on a full device
	for j := 0; j < len(paths) && j < 3; j++ {
		os.RemoveAll(sub)
		os.MkdirAll(k.knownPath, 0755)
		os.Symlink("/dev/full", paths[j])
		must := true
		one("full device", j, still(paths[j], plain, &must), &must)
	}
}

// still: the output was to go to a full device, unless the program put a file
// in the place of the link.
func still(path string, f launch, must *bool) launch {
	return func(bin string, args, env []string, dir string) proc.Result {
		res := f(bin, args, env, dir)
		fi, err := os.Lstat(path)
		*must = err == nil && fi.Mode()&os.ModeSymlink != 0
		return res
	}
}

// ---- aggregate-crls and get-mozilla-issuers ----

type crlWorld struct {
	run  *mon.Run
	base string
	srv  *crlw.Server
	cas  []*crlw.CA
	urls []string
	old  [][]byte // CRLs
	new  [][]byte
	want [2][]string // sorted lines of the list, for old and new
	rep  string
	enr  []string // sorted objects of the enrolled list
}

func newCrlWorld(run *mon.Run, r *rand.Rand) *crlWorld {
	d, err := os.MkdirTemp(run.Scratch, "crls")
	if err != nil {
		mon.Infra("%v", err)
	}
	w := &crlWorld{run: run, base: d, srv: crlw.NewServer(), rep: filepath.Join(d, "ccadb.csv")}
	root := crlw.Root("Root")
	rows := []crlw.Row{crlw.RootRow(root)}
	for i := 0; i < 1+r.Intn(4); i++ {
		ca := root.Sub(fmt.Sprint("Issuer ", i))
		u := fmt.Sprintf("http://crl%d.example/%d.crl", i, i)
		rows = append(rows, crlw.SubRow(ca, u, ""))
		w.cas, w.urls = append(w.cas, ca), append(w.urls, u)
		var es []der.Revoked
		n := []int{1, 5, 90, 100, 300, 1000}[r.Intn(6)]
		for gen := 0; gen < 2; gen++ {
			for ; n > 0; n-- {
				b := make([]byte, 20)
				r.Read(b)
				b[0] = 1 + b[0]&0x3f
				es = append(es, der.Revoked{Serial: b, Reason: -1, Time: time.Now().Add(-time.Hour)})
			}
			c := &der.CRL{Issuer: ca.Name, This: time.Now().Add(-time.Duration(2-gen) * time.Hour), Next: time.Now().Add(48 * time.Hour), Entries: es,
				Exts: [][]byte{der.CRLNumber(byte(1 + gen))}}
			var l []string
			for _, e := range es {
				l = append(l, "00"+hex.EncodeToString(e.Serial))
			}
			sort.Strings(l)
			w.want[gen] = append(w.want[gen], strings.Join(l, "\n"))
			if gen == 0 {
				w.old = append(w.old, c.Sign(ca.Key))
			} else {
				w.new = append(w.new, c.Sign(ca.Key))
			}
			n = 1 + r.Intn(200)
		}
	}
	os.WriteFile(w.rep, crlw.Report(r, rows), 0644)
	w.serve(0)
	return w
}

func (w *crlWorld) serve(gen int) {
	w.srv.Reset()
	t := time.Now().Add(-time.Hour).Truncate(time.Second)
	for i, u := range w.urls {
		b := w.old[i]
		if gen == 1 {
			b = w.new[i]
			t = time.Now().Add(-10 * time.Minute).Truncate(time.Second)
		}
		w.srv.Plan(u, &crlw.Resp{Kind: "ok", Body: b, LastMod: t})
	}
}

func (w *crlWorld) args(crls, out string) []string {
	return []string{"-logtostderr", "-ccadb", w.rep, "-crlpath", crls, "-revokedpath", filepath.Join(out, "revoked"),
		"-enrolledpath", filepath.Join(out, "enrolled.json"), "-auditpath", filepath.Join(out, "audit.json")}
}

func (w *crlWorld) env() []string {
	return append(proc.BaseEnv(w.base), "http_proxy=http://"+w.srv.Addr, "numThreads=3", "TMPDIR="+w.base)
}

func enrolledObjects(path string) ([]string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var l []map[string]any
	if err := json.Unmarshal(b, &l); err != nil {
		return nil, err
	}
	var out []string
	for _, o := range l {
		js, _ := json.Marshal(o)
		out = append(out, string(js))
	}
	sort.Strings(out)
	return out, nil
}

// judge compares the outputs of a successful run with the CRLs that are on disk.
func (w *crlWorld) judge(what, crls, out string, success bool) {
	v := func(key, f string, a ...any) { w.run.Violation(key, what+": "+fmt.Sprintf(f, a...), nil) }
	for i, ca := range w.cas {
		gen := -1
		es, _ := os.ReadDir(filepath.Join(crls, ca.ID()))
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".tmp") {
				continue
			}
			b, _ := os.ReadFile(filepath.Join(crls, ca.ID(), e.Name()))
			switch {
			case bytes.Equal(b, w.old[i]):
				gen = 0
			case bytes.Equal(b, w.new[i]):
				gen = 1
			default:
				v("truncated", "the stored CRL of issuer %d is %d bytes, neither the old one (%d) nor the new one (%d)", i, len(b), len(w.old[i]), len(w.new[i]))
			}
		}
		if !success || gen < 0 {
			continue
		}
		b, err := os.ReadFile(filepath.Join(out, "revoked", ca.ID()))
		if err != nil {
			v("false-success", "the run reported success, but: %v", err)
			continue
		}
		l := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		sort.Strings(l)
		if got := strings.Join(l, "\n"); got != w.want[gen][i] || !bytes.HasSuffix(b, []byte("\n")) {
			v("false-success", "the run reported success, but the revoked list of issuer %d has %d bytes instead of %d", i, len(b), len(w.want[gen][i])+1)
		}
	}
	if success {
		got, err := enrolledObjects(filepath.Join(out, "enrolled.json"))
		if err != nil {
			v("false-success", "the run reported success, but the enrolled list is unusable: %v", err)
		} else if w.enr != nil && strings.Join(got, "\n") != strings.Join(w.enr, "\n") {
			v("false-success", "the run reported success, but the enrolled list has %d entries instead of %d", len(got), len(w.enr))
		}
	}
}

func c21Crls(run *mon.Run, i int) {
	r := run.Rand("crls", i)
	w := newCrlWorld(run, r)
	defer w.srv.Close()
	defer os.RemoveAll(w.base)
	crls, out := filepath.Join(w.base, "crls"), filepath.Join(w.base, "o")
	os.MkdirAll(out, 0755)
	if res := plain("aggregate-crls", w.args(crls, out), w.env(), w.base); res.Code != 0 {
		run.Violation("failed", fmt.Sprintf("undisturbed: %v %s", res, tail(res.Stderr)), nil)
		return
	}
	w.judge("undisturbed", crls, out, true)
	for j, ca := range w.cas {
		if b, err := os.ReadFile(filepath.Join(out, "revoked", ca.ID())); err != nil || len(b) != len(w.want[0][j])+1 {
			run.Violation("failed", fmt.Sprintf("undisturbed: revoked list of issuer %d: %v, %d bytes", j, err, len(b)), nil)
			return
		}
	}
	var err error
	if w.enr, err = enrolledObjects(filepath.Join(out, "enrolled.json")); err != nil || len(w.enr) == 0 {
		run.Violation("failed", fmt.Sprintf("undisturbed: enrolled list: %v %d", err, len(w.enr)), nil)
		return
	}
	var sizes []int
	var paths []string
	pages := 0
	add := func(d string) {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() && !strings.HasSuffix(p, "audit.json") {
				sizes = append(sizes, int(fi.Size()))
				if strings.HasPrefix(p, out) {
					paths = append(paths, p)
				}
				pages += int(fi.Size()+4095) / 4096
			}
			return nil
		})
	}
	add(out)
	stored := filepath.Join(w.base, "stored")
	if b, err := exec.Command("cp", "-a", crls, stored).CombinedOutput(); err != nil {
		mon.Infra("cp: %s", b)
	}
	one := func(prog, kind string, n int, l launch, crl, o string, must *bool) {
		args := w.args(crls, out)
		if prog == "get-mozilla-issuers" {
			args = []string{"-logtostderr", "-ccadb", w.rep, "-out", filepath.Join(out, "enrolled.json")}
		}
		res := l(prog, args, w.env(), w.base)
		what := fmt.Sprintf("%s, %s %d (%v)", prog, kind, n, res)
		if res.TimedOut || res.Code != 0 && strings.Contains(res.Stderr, "panic:") {
			run.Violation("crash", what+": "+tail(res.Stderr), nil)
			return
		}
		ok := res.Code == 0
		if must != nil && *must && ok {
			run.Violation("false-success", what+": a system call on an output failed, and the run reported success", nil)
		} else if prog == "get-mozilla-issuers" {
			if ok {
				got, err := enrolledObjects(filepath.Join(o, "enrolled.json"))
				if err != nil || strings.Join(got, "\n") != strings.Join(w.enr, "\n") {
					run.Violation("false-success", fmt.Sprintf("%s: the run reported success, but the list is incomplete: %v", what, err), nil)
				}
			}
		} else {
			w.judge(what, crl, o, ok)
		}
		run.Eval(fmt.Sprintf("crls/%d/%s/%s/%d/%d", i, prog, kind, n, res.Code))
		run.Count(fmt.Sprintf("%s, %s: success=%v", prog, kind, ok), 1)
	}
	fresh := func() {
		os.RemoveAll(out)
		os.MkdirAll(out, 0755)
	}
	// the CRLs are current, so only the outputs are written
	for _, n := range bounds(r, run.Pick(25, 100), sizes...) {
		if n%2 == 0 {
			fresh()
		}
		one("aggregate-crls", "file size limit", n, fileLimit(n), crls, out, nil)
		one("get-mozilla-issuers", "file size limit", n, fileLimit(n), crls, out, nil)
	}
	fresh()
	if canRoom() {
		try := func(prog, kind string, n, p, in int) {
			o := filepath.Join(w.base, "o2")
			empty := filepath.Join(w.base, "empty")
			os.MkdirAll(empty, 0755)
			os.RemoveAll(o)
			one(prog, kind, n, fullDisk(out, empty, o, p, in), crls, o, nil)
		}
		step := 1 + pages/run.Pick(12, 40)
		for n := 1; n <= pages+step; n += step {
			try("aggregate-crls", "room", n, n, -1)
			try("get-mozilla-issuers", "room", n, n, -1)
		}
		for n := 0; n < 6; n++ {
			try("aggregate-crls", "inodes", n, 10000, n)
		}
	}
	if stracable() {
		for j := range paths {
			for _, c := range []string{"write error=ENOSPC:when=1", "write error=EIO:when=2+", "close error=EIO:when=1"} {
				call, inj, _ := strings.Cut(c, " ")
				for _, prog := range []string{"aggregate-crls", "get-mozilla-issuers"} {
					if prog == "get-mozilla-issuers" && !strings.HasSuffix(paths[j], "enrolled.json") {
						continue
					}
					var hit, must bool
					one(prog, c, j, func(bin string, args, env []string, dir string) proc.Result {
						res := badCall(call, inj, &hit, paths[j])(bin, args, env, dir)
						must = hit && call == "close"
						return res
					}, crls, out, &must)
					if hit {
						run.Count(prog+": system calls made to fail", 1)
					}
				}
			}
		}
	}
	for j := range paths {
		fresh()
		os.MkdirAll(filepath.Join(out, "revoked"), 0755)
		os.Symlink("/dev/full", paths[j])
		must := true
		one("aggregate-crls", "full device", j, still(paths[j], plain, &must), crls, out, &must)
	}
	must := true
	os.Remove(filepath.Join(out, "enrolled.json"))
	os.Symlink("/dev/full", filepath.Join(out, "enrolled.json"))
	one("get-mozilla-issuers", "full device", 0, still(filepath.Join(out, "enrolled.json"), plain, &must), crls, out, &must)
	must = true
	one("get-mozilla-issuers", "full standard output", 0, func(bin string, args, env []string, dir string) proc.Result {
		return proc.Run("sh", []string{"-c", `exec "$@" >/dev/full`, "sh", filepath.Join(binDir, bin), "-logtostderr", "-ccadb", w.rep}, env, dir, 60*time.Second)
	}, crls, out, &must)
	os.RemoveAll(out)
	// newer CRLs have to be stored too
	w.serve(1)
	again := func() {
		fresh()
		os.RemoveAll(crls)
		if b, err := exec.Command("cp", "-a", stored, crls).CombinedOutput(); err != nil {
			mon.Infra("cp: %s", b)
		}
	}
	for j := range w.new {
		sizes = append(sizes, len(w.new[j]))
	}
	for _, n := range bounds(r, run.Pick(20, 100), sizes...) {
		again()
		one("aggregate-crls", "file size limit with new CRLs", n, fileLimit(n), crls, out, nil)
	}
	again()
	if canRoom() {
		need := 0
		for j := range w.new {
			need += 2 + len(w.new[j])/4096
		}
		o := filepath.Join(w.base, "crls2")
		for n := 0; n <= need; n += 1 + need/run.Pick(10, 40) {
			os.RemoveAll(o)
			fresh()
			one("aggregate-crls", "room for new CRLs", n, fullDisk(crls, stored, o, n, -1), o, out, nil)
		}
	}
}

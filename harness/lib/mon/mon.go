// Package mon is the monitor core: it counts oracle evaluations, collects
// samples, matches violations against the committed known findings, writes
// evidence and supervises the process that runs the code under test.
package mon

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var VerifDir = envOr("VERIF_DIR", "/verif")
var RepoDir = envOr("VERIF_REPO", "/repo")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type Run struct {
	ID       string
	Tier     string
	Seed     int64
	Level    string
	Rule     string
	Assume   []string
	start    time.Time
	mu       sync.Mutex
	evals    int
	distinct map[[16]byte]struct{}
	counts   map[string]int
	samples  []any
	sampleN  map[string]int
	viol     []violation
	known    []finding
	knownHit map[string]bool
	extra    map[string]any
	Scratch  string
	longest  time.Duration
}

var current *Run

type violation struct {
	Key, Desc, Replay string
}

type finding struct {
	Key, What string
}

// New starts a run of the check of one property.
func New(id string) *Run {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := &Run{ID: id, Tier: tier, Seed: seed, Level: "exploration", start: time.Now(),
		distinct: map[[16]byte]struct{}{}, counts: map[string]int{}, sampleN: map[string]int{},
		knownHit: map[string]bool{}, extra: map[string]any{}}
	r.Scratch = os.Getenv("VH_SCRATCH")
	if r.Scratch == "" {
		d, err := os.MkdirTemp("", "vh-"+id+"-")
		if err != nil {
			Infra("mkdtemp: %v", err)
		}
		r.Scratch = d
	}
	r.loadKnown()
	current = r
	if tier == "quick" {
		// What was found counts even if the time runs out.
		time.AfterFunc(835*time.Second, func() {
			if r.Violations() > 0 {
				os.Exit(r.Finish())
			}
		})
	}
	return r
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q for the quick tier, t for the thorough one.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	if s, _ := strconv.Atoi(os.Getenv("VH_SCALE")); s > 1 { // a share of the quick workload
		return (q + s - 1) / s
	}
	return q
}

// Infra reports an error of the check itself (exit 2, never a violation).
func Infra(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", a...)
	os.Exit(2)
}

// KNOWN_FINDINGS.txt lines:
//
//	known: property=C05 key=<key> <what fails>
//	fixed: property=C05 <commit> <what failed>
func (r *Run) loadKnown() {
	f, err := os.Open(filepath.Join(VerifDir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil && m[1] == r.ID {
			r.known = append(r.known, finding{m[2], m[3]})
		}
	}
}

// Rand derives an independent deterministic generator for the named purpose.
func (r *Run) Rand(parts ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, r.ID, "/", r.Seed, "/")
	for _, p := range parts {
		fmt.Fprint(h, p, "/")
	}
	return rand.New(rand.NewSource(int64(h.Sum64() & 0x7fffffffffffffff)))
}

// Eval records one oracle evaluation. A non-empty key marks the case as
// non-trivial; distinct keys are counted.
func (r *Run) Eval(key string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if key != "" {
		s := sha256.Sum256([]byte(key))
		r.distinct[[16]byte(s[:16])] = struct{}{}
	}
}

func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counts[name] += n
}

func (r *Run) GetCount(name string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counts[name]
}

// Sample keeps the first few cases of each kind.
func (r *Run) Sample(kind string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.sampleN[kind] < 2 && len(r.samples) < 24 {
		r.sampleN[kind]++
		r.samples = append(r.samples, map[string]any{"kind": kind, "case": v})
	}
}

func (r *Run) Extra(k string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.extra[k] = v
}

// Violation records a failure of the property. key identifies the specific
// input, call site or history that fails.
func (r *Run) Violation(key, desc string, detail any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k.Key == key {
			if !r.knownHit[key] {
				r.knownHit[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, k.What)
			}
			return
		}
	}
	if len(r.viol) >= 20 {
		r.viol = append(r.viol, violation{key, desc, ""})
		return
	}
	dir := filepath.Join(VerifDir, "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", r.ID, r.Tier, r.Seed, len(r.viol)))
	js, _ := json.MarshalIndent(map[string]any{"property": r.ID, "tier": r.Tier, "seed": r.Seed, "key": key,
		"description": desc, "detail": detail,
		"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s /verif/check.sh %s %s", r.Seed, r.Tier, r.ID, r.Tier)}, "", " ")
	os.WriteFile(path, js, 0644)
	r.viol = append(r.viol, violation{key, desc, path})
	fmt.Printf("VIOLATION property=%s replay=%s\n  key=%s %s\n", r.ID, path, key, trunc(desc, 1500))
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (r *Run) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol)
}

// Finish writes the evidence file and returns the exit status.
func (r *Run) Finish() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]any{"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.Rule, "samples": r.samples}
	if len(r.counts) > 0 {
		cov["observed"] = r.counts
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]any{"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(), "violations": len(r.viol)}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(VerifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(VerifDir, "evidence", r.ID+".json"), append(js, '\n'), 0644); err != nil {
		Infra("evidence: %v", err)
	}
	var ks []string
	for k := range r.counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1fs\n", r.ID, r.Tier, r.Seed, r.evals, len(r.distinct), len(r.viol), time.Since(r.start).Seconds())
	for _, k := range ks {
		fmt.Printf("  %s: %d\n", k, r.counts[k])
	}
	fmt.Printf("  longest item: %.1f s\n", r.longest.Seconds())
	if len(r.viol) > 0 {
		return 1
	}
	if r.evals == 0 {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR: nothing was evaluated")
		return 2
	}
	return 0
}

// Supervise re-executes the program as a child and turns an abnormal end
// caused by the code under test (panic, glog fatal) into a violation.
// It returns only in the child.
func Supervise(id string) {
	if os.Getenv("VH_CHILD") != "" {
		return
	}
	scratch, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		Infra("mkdtemp: %v", err)
	}
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VH_CHILD=1", "VH_SCRATCH="+scratch)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var errb tailBuf
	cmd.Stdout = os.Stdout
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		Infra("start: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := 860 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		limit = 3 * time.Hour
	}
	timedOut := false
	select {
	case <-done:
	case <-time.After(limit):
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	os.RemoveAll(scratch)
	code := cmd.ProcessState.ExitCode()
	tail := errb.String()
	if timedOut {
		fmt.Fprintln(os.Stderr, tail)
		Infra("%s timed out", id)
	}
	if code == 0 || code == 1 {
		os.Exit(code)
	}
	fmt.Fprintln(os.Stderr, tail)
	inRepo := strings.Contains(tail, "mozilla/crlite/go") || strings.Contains(tail, RepoDir+"/go/")
	glogFatal := regexp.MustCompile(`(?m)^F\d{4} `).MatchString(tail)
	if !strings.Contains(tail, "CHECK-ERROR") && (glogFatal || (inRepo && (strings.Contains(tail, "panic:") || strings.Contains(tail, "fatal error:")))) {
		r := New(id)
		r.Rule = "supervised run"
		r.Eval("crash")
		r.Violation("crash", "the code under test crashed: "+trunc(tail, 3000), tail)
		os.Exit(r.Finish())
	}
	os.Exit(2)
}

type tailBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b.Write(p)
	if t.b.Len() > 1<<20 {
		keep := append([]byte(nil), t.b.Bytes()[t.b.Len()-(1<<19):]...)
		t.b.Reset()
		t.b.Write(keep)
	}
	return len(p), nil
}
func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.b.String()
}

// Par runs f(0) .. f(n-1) in w goroutines. An item that takes extremely long
// while code under test is on a stack of this process is a hang.
func Par(w, n int, f func(i int)) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	began := make([]time.Time, w)
	item := make([]int, w)
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(2 * time.Second):
			}
			mu.Lock()
			for k, t := range began {
				if t.IsZero() {
					continue
				}
				if d := time.Since(t); d > hangLimit() {
					hung(item[k], d)
				}
			}
			mu.Unlock()
		}
	}()
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				mu.Lock()
				began[k], item[k] = time.Now(), i
				mu.Unlock()
				f(i)
				mu.Lock()
				d := time.Since(began[k])
				began[k] = time.Time{}
				mu.Unlock()
				if r := current; r != nil {
					r.mu.Lock()
					r.longest = max(r.longest, d)
					r.mu.Unlock()
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	close(stop)
}

func hangLimit() time.Duration {
	if s, _ := strconv.Atoi(os.Getenv("VH_HANG")); s > 0 {
		return time.Duration(s) * time.Second
	}
	if current != nil && current.Thorough() {
		return 40 * time.Minute
	}
	return 450 * time.Second
}

// hung reports an item that does not end, if it is the code under test that
// does not.
func hung(i int, d time.Duration) {
	r := current
	if r == nil {
		return
	}
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var in []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/mozilla/crlite/go") {
			in = append(in, g)
		}
	}
	if len(in) == 0 {
		return
	}
	r.Violation("hang", fmt.Sprintf("item %d did not end within %v; the code under test is at: %s", i, d, trunc(in[0], 900)), in)
	os.Exit(r.Finish())
}
